"""Case counts per property (deterministic amounts of work, not seconds)."""
PROPS = {
    "P01": dict(quick=60000, thorough=1500000),
    "P02": dict(quick=60000, thorough=1500000),
    "P03": dict(quick=60000, thorough=1500000),
    "P04": dict(quick=60000, thorough=1500000),
    "P05": dict(quick=60000, thorough=1500000),
    "P06": dict(quick=60000, thorough=1500000),
    "P07": dict(quick=20000, thorough=400000),
    "P08": dict(quick=4000, thorough=80000),
    "P09": dict(quick=60000, thorough=1500000),
    "P10": dict(quick=40000, thorough=1000000),
    "P11": dict(quick=20000, thorough=500000),
    "P12": dict(quick=40000, thorough=1000000),
    "P13": dict(quick=8000, thorough=200000),
    "P14": dict(quick=30000, thorough=800000),
    "P15": dict(quick=30000, thorough=600000),
    "P16": dict(quick=30000, thorough=600000),
    "P17": dict(quick=3000, thorough=80000),
    "P18": dict(quick=2500, thorough=80000),
    "P19": dict(quick=30000, thorough=800000),
    "P20": dict(quick=60000, thorough=500000),
    "P21": dict(quick=40000, thorough=1000000),
    "P22": dict(quick=30000, thorough=800000),
    "P23": dict(quick=280, thorough=8000),
    "P24": dict(quick=60000, thorough=2000000),
    "P25": dict(quick=60000, thorough=2000000),
    "P26": dict(quick=40000, thorough=1000000),
    "P27": dict(quick=7000, thorough=300000),
    "P28": dict(quick=12000, thorough=300000),
    "P29": dict(quick=60000, thorough=1500000),
    "P30": dict(quick=600, thorough=20000, flavour="tsan", cpu=200),
    "P31": dict(quick=80000, thorough=3000000),
    "P32": dict(quick=6000, thorough=600000, capi=True),
    "P33": dict(quick=30000, thorough=300000),
}
