------------------------------ MODULE MC_Born ------------------------------
EXTENDS BornModel
ValsReal == {<<0, 0>>, <<1, 0>>, <<-1, 0>>, <<2, 0>>}
ValsTiny == {<<0, 1>>, <<-1, 1>>}
ValsCplx == {<<0, 1>>, <<1, 0>>, <<-1, 1>>}
R(a, b) == <<<<a, 0>>, <<b, 0>>>>
DomainsSlope == {
    <<R(1, 0), R(1, 1), R(0, 1)>>,
    << <<<<1, 0>>, <<0, 1>>>>, <<<<0, 1>>, <<1, 1>>>> >> }
DomainsDef == {
    <<R(1, 0), R(0, 1)>>,                    \* one-hot: identity
    <<R(1, 0), R(0, 2)>>,                    \* diagonal
    <<R(1, 1), R(1, -1)>>,                   \* orthogonal, scalar 2
    <<R(1, 0), R(1, 1), R(0, 1)>>,           \* full
    <<R(1, 2)>>,                             \* singular
    << <<<<1, 0>>, <<0, 1>>>>, <<<<0, 1>>, <<1, 1>>>> >> }   \* complex
=============================================================================
