"""What each check runs: scenario groups, numbers of simulated runs, limits."""
# property: (groups, quick runs, thorough runs, faults meant)
PLAN = {
    "C01": (["safew"], 500000, 15000000),
    "C02": (["safew"], 240000, 7200000),
    "C03": (["safew"], 360000, 10800000),
    "C04": (["safew"], 400000, 12000000),
    "C05": (["fsx"], 600000, 24000000),
    "C09": (["mbox"], 220000, 6600000),
    "C10": (["mbox"], 240000, 7200000),
    "C11": (["random"], 1200000, 48000000),
    "C12": (["random"], 400000, 12000000),
    "C13": (["random"], 180000, 5400000),
    "C14": (["random"], 300000, 9000000),
    "C15": (["notify"], 1200000, 48000000),
    "C17": (["hash"], 300000, 12000000),
    "C16": (["fsx"], 900000, 36000000),
    "C18": (["clock"], 3000000, 120000000),
    "C19": (["clock"], 3000000, 120000000),
    "C20": (["clock"], 3000000, 120000000),
    "C21": (["clock"], 3000000, 120000000),
    "C22": (["life"], 700000, 28000000),
    "C23": (["life"], 2000000, 80000000),
    "C25": (["wire"], 1500000, 60000000),
    "C27": (["wire"], 1500000, 60000000),
    "C28": (["wire"], 1500000, 60000000),
    "C24": (["queue"], 400000, 16000000),
    "C26": (["clock"], 2000000, 80000000),
    "C29": (["text"], 1500000, 60000000),
    "C30": (["text"], 3000000, 120000000),
    "C06": (["dynmbox"], 80000, 2400000),
    "C07": (["dynmbox"], 72000, 2160000),
    "C08": (["dynmbox"], 120000, 3600000),
}
QUICK_CAP = 200      # seconds of simulation at most
THOROUGH_CAP = 600
SHRINK_S = 25
