# Which harness decides which property: (target, quick cases, thorough cases).
import c24gen
POSITION = ["APP_POSITION"]; POSE = ["APP_POSE"]; POSEPRESSURE = ["APP_POSEPRESSURE"]; POSITIONPOSE = ["APP_POSITIONPOSE"]; SPHERICAL = ["APP_SPHERICAL"]
PROPS = {
  "C03": {"units": [{"src": "c03.cc", "defs": POSITION, "targets": [("schedules", 12000, 600000)]}]},
  "C04": {"units": [{"src": "c04.cc", "defs": POSE, "targets": [("single_step", 20000, 2000000), ("symmetries", 6000, 500000), ("stream", 3000, 200000)]}]},
  "C05": {"units": [{"src": "c05.cc", "defs": POSITION, "targets": [("model", 12000, 800000), ("jacobian", 3000, 200000), ("stream", 4000, 200000)]}]},
  "C01": {"units": [{"src": "c01.cc", "repo": ["tools"], "targets": [("history", 120000, 3000000)]}]},
  "C07": {"units": [{"src": "c07.cc", "defs": POSITION, "targets": [("update", 40000, 1500000)]}, {"src": "c07.cc", "defs": POSITION + ["SMALL"], "targets": [("update_small", 30000, 1000000)]}]},
  "C09": {"units": [{"src": "c09.cc", "defs": POSE, "targets": [("pose", 40000, 1500000)]}, {"src": "c09.cc", "defs": POSITIONPOSE, "targets": [("position_pose", 20000, 700000)]}]},
  "C26": {"units": [{"src": "c26.cc", "repo": ["gps"], "targets": [("conversion", 60000, 3000000)]}]},
  "C29": {"units": [{"src": "c29.cc", "repo": ["timing"], "targets": [("accumulator", 20000, 600000), ("timers", 40000, 1500000), ("format", 40000, 1000000)]}, {"src": "c29.cc", "repo": ["timing"], "defs": ["SM_TIMING_SHOW_MINUTES"], "targets": [("format", 20000, 500000)]}, {"src": "c29.cc", "repo": ["timing"], "defs": ["SM_TIMING_SHOW_MINUTES", "SM_TIMING_SHOW_HOURS"], "targets": [("format", 20000, 500000)]}]},
  "C33": {"units": [{"src": "c33.cc", "repo": ["tools"], "targets": [("log_macros", 40000, 1000000), ("median", 40000, 1000000), ("check_numeric", 40000, 1000000), ("timehuman", 20000, 500000)]}]},
  "C34": {"units": [{"src": "c34.cc", "repo": ["falsecolor"], "targets": [("palettes", 60000, 600000)]}]},
  "C25": {"units": [{"src": "c25.cc", "repo": [], "targets": [("skew", 30000, 500000), ("rate_matrices", 40000, 1000000), ("small_angle", 40000, 1000000), ("conversions", 30000, 500000)]}]},
  "C27": {"units": [{"src": "c27.cc", "repo": ["similarity"], "targets": [("exact", 40000, 1500000), ("noisy", 30000, 1000000), ("degenerate", 20000, 300000)]}]},
  "C28": {"units": [{"src": "c28.cc", "repo": ["distorter"], "modes_thorough": ["rel"], "targets": [("deterministic", 40000, 1500000), ("moments", 3000, 60000)]}]},
  "C35": {"units": [{"src": "c35.cc", "repo": [], "targets": [("relay", 30000, 800000)]}]},
  "C36": {"units": [{"src": "c36.cc", "repo": [], "targets": [("reference", 12000, 400000), ("perfect", 6000, 200000), ("unusable", 2000, 20000)]}]},
  "C37": {"units": [{"py": "c37.py", "modes_thorough": ["rel"], "targets": [("compass", 12000, 600000)]}]},
  "C24": {"units": [{"src": "c24.cc", "generate": c24gen.generate, "targets": []}, {"src": "c24i.cc", "defs": POSITION, "targets": [("initial_values", 20000, 300000)]}]},
  "C10": {"units": [{"src": "c10.cc", "defs": POSITION, "targets": [("position", 30000, 1200000)]}, {"src": "c10.cc", "defs": POSITIONPOSE, "targets": [("position_in_position_pose", 12000, 500000)]}, {"src": "c10.cc", "defs": POSEPRESSURE, "targets": [("pressure", 15000, 600000)]}]},
  "C11": {"units": [{"src": "c11.cc", "defs": SPHERICAL, "targets": [("spherical", 40000, 1500000), ("axes", 20000, 200000)]}]},
  "C06": {"units": [{"src": "c06.cc", "defs": d, "targets": [("growth", 8000, 300000), ("separation", 8000, 300000)]} for d in (POSE, POSITION, POSEPRESSURE, POSITIONPOSE, SPHERICAL)]},
  "C12": {"units": [{"src": "c12.cc", "defs": d, "targets": [("history", 5000, 200000), ("update", 5000, 200000)]} for d in (POSE, POSITION, POSEPRESSURE, POSITIONPOSE, SPHERICAL)]},
  "C13": {"units": [{"src": "c13.cc", "defs": POSITION, "targets": [("spikes", 20000, 800000)]}]},
  "C14": {"units": [{"src": "c14.cc", "defs": POSITION, "targets": [("restart", 6000, 300000), ("late_readings", 6000, 300000), ("jump_before_prediction", 8000, 200000)]}, {"src": "c14.cc", "defs": POSE, "targets": [("restart", 6000, 300000), ("late_readings", 4000, 200000)]}]},
  "C16": {"units": [{"src": "c16.cc", "defs": d, "targets": [("topics", 8000, 300000)]} for d in (POSE, POSEPRESSURE, POSITIONPOSE)]},
  "C17": {"units": [{"src": "c17.cc", "defs": d, "targets": [("topics", 8000, 300000)]} for d in (POSITION, POSITIONPOSE)]},
  "C18": {"units": [{"src": "c18.cc", "defs": POSEPRESSURE, "modes_quick": ["rel", "san"], "san_div": 30, "targets": [("updates", 8000, 400000), ("memory", 8000, 400000)]}]},
  "C19": {"units": [{"src": "c19.cc", "defs": d, "targets": [("initialise", 8000, 250000)]} for d in (POSE, POSITION, POSEPRESSURE, POSITIONPOSE, SPHERICAL)]},
  "C20": {"units": [{"src": "c20.cc", "defs": d, "targets": [("publications", 5000, 200000)]} for d in (POSE, POSITION, POSEPRESSURE, POSITIONPOSE, SPHERICAL)]},
  "C21": {"units": [{"src": "c21.cc", "defs": d, "targets": [("external", 8000, 300000)]} for d in (POSE, POSITION)]},
  "C22": {"units": [{"src": "c22.cc", "defs": d, "targets": [("tracking", 3000, 150000)]} for d in (POSE, POSEPRESSURE, POSITIONPOSE, POSITION)]},
  "C15": {"units": [{"src": "c15.cc", "defs": d, "targets": [("injected", 6000, 300000)]} for d in (POSE, POSITION, SPHERICAL)]},
  "C23": {"units": [{"src": "c23.cc", "defs": POSITION, "targets": [("schedules", 10000, 400000)]}, {"src": "c23.cc", "defs": POSE, "targets": [("pose", 8000, 400000)]}, {"src": "c23.cc", "defs": POSITIONPOSE, "targets": [("pose", 5000, 200000)]}]},
  "C32": {"units": [{"src": "c32.cc", "defs": d, "targets": [("update", 6000, 300000), ("history", 4000, 200000)]} for d in (POSE, POSEPRESSURE, POSITIONPOSE)]},
  "C31": {"units": [{"src": "c31.cc", "defs": POSITION, "modes_thorough": ["rel"], "targets": [("stream", 900, 40000)]}]},
  "C30": {"units": [{"src": "c30.cc", "defs": d, "modes_quick": ["san"], "modes_thorough": ["san"], "san_div": 1, "targets": [("inputs", 2000, 150000)]} for d in (POSE, POSITION, POSEPRESSURE, POSITIONPOSE, SPHERICAL)]},
  "C02": {"units": [{"src": "c02.cc", "defs": d, "targets": [("orders", 4000, 200000)]} for d in (POSITIONPOSE, POSE, POSITION, POSEPRESSURE, SPHERICAL)]},
}
