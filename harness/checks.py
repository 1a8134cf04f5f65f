"""What each check runs: design models, driver shards and the judging module"""



def model(module, cfg=None, broken=None, **kw):
    return dict(module=module, cfg=cfg or module, expect_fail=broken, **kw)


def pick(deep, quick_cfg, deep_cfg):
    return deep_cfg if deep else quick_cfg


def chain_models(deep):
    return [model("MC_Chain", pick(deep, "MC_Chain", "MC_Chain_deep")),
            model("MC_Chain", "MC_Chain_broken", broken="DerivativeIsDifference")]


def adaptive_models(deep):
    return [model("Adaptive", pick(deep, "Adaptive", "Adaptive_deep"))] + (
        [model("Adaptive", "Adaptive_long")] if deep else [])


def truncation_models(deep):
    return [model("Truncation", pick(deep, "Truncation", "Truncation_deep"))]


def tours(deep):
    """Evaluations between all kinds of writes to models and inputs"""
    return dict(tour=dict(module="Freshness", cfg="Freshness_tour", count=250 if deep else 24,
                          simulate=(300 if deep else 30, 60)))


CHECKS = {
    "C01": dict(judge="J_C01", shards=4, models=chain_models, behaviours=lambda deep: tours(deep)),
    "C04": dict(
        judge="J_C04", shards=4,
        models=lambda deep: [
            model("Reduction", pick(deep, "Reduction", "Reduction_deep")),
            model("Reduction", "Reduction_broken", broken="InOrder"),
        ],
    ),
    "C05": dict(
        judge="J_C05", shards=4,
        models=lambda deep: [
            model("LogScale", pick(deep, "LogScale", "LogScale_deep")),
            model("LogScale", "LogScale_noguard", broken="Finite"),
            model("LogScale", "LogScale_end", broken="Exact"),
        ],
    ),
    "C06": dict(
        judge="J_Born", shards=4,
        behaviours=lambda deep: tours(deep),
        models=lambda deep: [
            model("MC_Born"), model("MC_Born", "MC_Born_cplx1"),
            model("MC_Born", "MC_Born_shifted", broken="TransferIsSum"),
        ] + ([model("MC_Born", "MC_Born_deep"), model("MC_Born", "MC_Born_d1")] if deep else []),
    ),
    "C07": dict(
        judge="J_Born", shards=4,
        behaviours=lambda deep: tours(deep),
        models=lambda deep: [
            model("MC_Born"), model("MC_Born", "MC_Born_cplx1"),
            model("MC_Born", "MC_Born_shifted", broken="TransferIsSum"),
        ] + ([model("MC_Born", "MC_Born_deep"), model("MC_Born", "MC_Born_d1")] if deep else []),
    ),
    "C08": dict(
        judge="J_Born", shards=4,
        behaviours=lambda deep: tours(deep),
        models=lambda deep: [
            model("MC_Born"), model("MC_Born", "MC_Born_cplx1"),
            model("MC_Born", "MC_Born_lossy", broken="TransferIsSum"),
            model("MC_Born", "MC_Born_shifted", broken="TransferIsSum"),
        ] + ([model("MC_Born", "MC_Born_deep"), model("MC_Born", "MC_Born_d1")] if deep else []),
    ),
    "C09": dict(
        judge="J_Born", shards=5,
        behaviours=lambda deep: dict(
            short=dict(module="EmbedLife", cfg="EmbedLife", count=2000 if deep else 70),
            long=dict(module="EmbedLife", cfg="EmbedLife_sim", count=1000 if deep else 50,
                      simulate=(1000 if deep else 60, 12)),
            **tours(deep)),
        models=lambda deep: [
            model("EmbedLife", "EmbedLife_construct", broken="NeverStale"),
            model("EmbedLife", "EmbedLife_first", broken="NeverStale"),
            model("EmbedLife", "EmbedLife_load", broken="NeverStale"),
            model("EmbedLife", "EmbedLife_step", broken="NeverStale"),
        ] + ([model("EmbedLife", "EmbedLife_deep")] if deep else []),
    ),
    "C19": dict(
        judge="J_Chain", shards=5,
        models=lambda deep: chain_models(deep) + [
            model("MC_Born", "MC_Born_slopeq"),
            model("MC_Born", "MC_Born_onesite", broken="SlopeIsSum"),
        ] + ([model("MC_Born", "MC_Born_slope"), model("MC_Born", "MC_Born_slope1")] if deep else []),
    ),
    "C03": dict(
        judge="J_Chain", shards=6, workers=1,
        behaviours=lambda deep: dict(
            two=dict(module="Isolation", cfg="Isolation_deep" if deep else "Isolation",
                     count=3000 if deep else 70),
            three=dict(module="Isolation", cfg="Isolation_three", count=1500 if deep else 40),
            life=dict(module="ModelLife", cfg="ModelLife", count=1500 if deep else 50),
            long=dict(module="ModelLife", cfg="ModelLife_sim", count=600 if deep else 25,
                      simulate=(800 if deep else 60, 13)),
            **tours(deep)),
        models=lambda deep: [
            model("Freshness", pick(deep, "Freshness", "Freshness_deep")),
            model("Freshness", "Freshness_content"),
        ] + [
            model("Freshness", "Freshness_" + v, broken="Fresh")
            for v in (("seen", "part", "evalonly") if not deep else
                      ("object", "address", "count", "seen", "recycled", "part", "evalonly"))
        ] + [
            model("Isolation", "Isolation_shared", broken="Isolated"),
            model("ModelLife", "ModelLife_cached", broken="Faithful"),
            model("ModelLife", "ModelLife_leak", broken="Faithful"),
        ],
    ),
    "C02": dict(
        judge="J_Chain", shards=6,
        models=lambda deep: [
            model("Reduction", pick(deep, "Reduction", "Reduction_deep")),
            model("Reduction", "Reduction_broken", broken="InOrder"),
        ],
    ),
    "C10": dict(
        judge="J_Adapt", shards=6,
        behaviours=lambda deep: dict(
            short=dict(module="Adaptive", cfg="Adaptive_beh", count=4000 if deep else 150),
            walk=dict(module="Adaptive", cfg="Adaptive_walk", count=1500 if deep else 60,
                      simulate=(2000 if deep else 80, 15)),
        ),
        models=lambda deep: adaptive_models(deep) + [
            model("Adaptive", "Adaptive_dropped", broken="Correct"),
            model("Adaptive", "Adaptive_lonely", broken="Correct"),
            model("Adaptive", "Adaptive_anywhere", broken="Correct"),
            model("Adaptive", "Adaptive_reset", broken="Scheduled"),
            model("Adaptive", "Adaptive_late", broken="Prompt"),
        ],
    ),
    "C11": dict(
        judge="J_Adapt", shards=7, workers=1,
        models=lambda deep: adaptive_models(deep) + [model("Adaptive", "Adaptive_stale", broken="Attached")]
        + truncation_models(deep) + [model("Truncation", "Truncation_nozero", broken="Contract")],
    ),
    "C12": dict(
        judge="J_Adapt", shards=7, workers=1,
        models=lambda deep: adaptive_models(deep) + truncation_models(deep) + [
            model("Truncation", "Truncation_early", broken="Contract")],
    ),
    "C13": dict(
        judge="J_Adapt", shards=7, workers=1,
        behaviours=lambda deep: dict(
            train=dict(module="Adaptive", cfg="Adaptive_train", count=1500 if deep else 150,
                       simulate=(2000 if deep else 200, 10)),
        ),
        models=lambda deep: adaptive_models(deep) + [
            model("Adaptive", "Adaptive_detached", broken="Attached"),
            model("Adaptive", "Adaptive_stale", broken="Attached"),
        ],
    ),
    "C14": dict(
        judge="J_Svd", shards=5, workers=1,
        models=lambda deep: truncation_models(deep) + [
            model("Truncation", "Truncation_" + v, broken="Contract")
            for v in ("strict", "early", "nocrop", "nozero")],
    ),
    "C20": dict(
        judge="J_Adapt", shards=7, workers=1,
        behaviours=lambda deep: dict(
            adaptive=dict(module="Adaptive", cfg="Adaptive_copies", count=1500 if deep else 120,
                          simulate=(2000 if deep else 150, 10)),
            short=dict(module="ModelLife", cfg="ModelLife_copies", count=1500 if deep else 40),
            long=dict(module="ModelLife", cfg="ModelLife_sim", count=600 if deep else 20,
                      simulate=(800 if deep else 50, 13)),
            embed=dict(module="EmbedLife", cfg="EmbedLife_sim", count=600 if deep else 20,
                       simulate=(700 if deep else 30, 12)),
        ),
        models=lambda deep: adaptive_models(deep) + [
            model("Adaptive", "Adaptive_half", broken="Attached"),
            model("ModelLife", "ModelLife_shallow", broken="Separate"),
            model("ModelLife", "ModelLife_half", broken="Faithful"),
        ],
    ),
    "C15": dict(
        judge="J_Chain", shards=6, workers=1, behaviours=lambda deep: tours(deep),
        models=lambda deep: [model("Padding", pick(deep, "Padding", "Padding_deep"))] + [
            model("Padding", "Padding_" + v, broken="PaddingIsInvisible")
            for v in ("raw", "repeat", "cut", "noguard")],
    ),
    "C16": dict(
        judge="J_Map", shards=6, workers=1,
        behaviours=lambda deep: dict(
            short=dict(module="FeatureMaps", cfg="FeatureMaps", count=1331 if deep else 100),
            long=dict(module="FeatureMaps", cfg="FeatureMaps_sim", count=1500 if deep else 60,
                      simulate=(2000 if deep else 80, 14)),
            **tours(deep)),
        models=lambda deep: [model("FeatureMaps", "FeatureMaps_deep")] + [
            model("FeatureMaps", "FeatureMaps_" + v, broken=inv)
            for v, inv in (("nopop", "AlwaysCurrent"), ("hide", "OwnsItsModule"), ("early", "AlwaysCurrent"),
                           ("reset", "AlwaysCurrent"), ("first", "AlwaysCurrent"))],
    ),
    "C17": dict(
        judge="J_Alg", shards=5,
        models=lambda deep: [
            model("Reducer", "Reducer_deep"),
            model("Reducer", pick(deep, "Reducer_serial", "Reducer_serial_deep")),
            model("Reducer", "Reducer_parallel"),
            model("Reducer", "Reducer_each", broken="Confluent"),
            model("Reducer", "Reducer_swapped", broken="Confluent"),
            model("Reducer", "Reducer_turned", broken="Confluent"),
            model("Reducer", "Reducer_stuck", broken="Reduces"),
        ],
    ),
    "C18": dict(
        judge="J_Shape", shards=4,
        models=lambda deep: [
            model("Broadcast", pick(deep, "Broadcast", "Broadcast_deep")),
            model("Broadcast", "Broadcast_three"),
        ] + [model("Broadcast", "Broadcast_" + v, broken="Standard")
             for v in ("left", "zero", "first", "max")],
    ),
    "C21": dict(
        judge="J_Init", shards=4,
        models=lambda deep: [
            model("InitTensor", pick(deep, "InitTensor", "InitTensor_deep")),
            model("FreshModel", pick(deep, "FreshModel", "FreshModel_deep")),
            model("FreshModel", "FreshModel_full", broken="Constant"),
            model("FreshModel", "FreshModel_nobias", broken="Constant"),
        ] + [model("InitTensor", "InitTensor_" + v, broken="AsDocumented")
             for v in ("leftfirst", "corner", "once")],
    ),
    "C22": dict(
        judge="J_Refuse", shards=6, workers=2,
        behaviours=lambda deep: dict(
            adaptive=dict(module="Refusal", cfg="Refusal_sim", count=1500 if deep else 120,
                          simulate=(9000 if deep else 800, 140)),
            plain=dict(module="Refusal", cfg="Refusal_simplain", count=1500 if deep else 80,
                       simulate=(9000 if deep else 600, 120)),
        ),
        models=lambda deep: [
            model("Refusal", pick(deep, "Refusal", "Refusal_deep")), model("Refusal", "Refusal_plain"),
        ] + [model("Refusal", "Refusal_" + v, broken="NoTrace")
             for v in ("counted", "switched", "flipped", "spent", "mapped")],
    ),
    "C23": dict(
        judge="J_Data", shards=4, workers=2,
        models=lambda deep: [
            model("HVData", pick(deep, "HVData", "HVData_deep")), model("TrigNorm"),
            model("TrigNorm", "TrigNorm_flat", broken="UnitNorm"),
        ] + [model("HVData", "HVData_" + v, broken="Good") for v in ("zero", "all", "apart", "gap")],
    ),
}
