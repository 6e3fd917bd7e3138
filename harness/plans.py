"""What each check runs: design models, trace specification, assumptions."""

PLANS = {}

PLANS["C01"] = dict(
    trace="TC01", stateless=True, shards=4,
    design=[
        dict(module="MCBatch", emit="len2", invariants=["AsAlone", "Complete", "InMemory", "Emit"],
             consts={"Images": '{"a", "b", "c"}', "Layout": "<- MCLayout",
                     "Rois": '{"none", "R1", "R2"}', "MaxRows": 2,
                     "GlobalRois": '{"none"}'}),
        dict(module="MCBatch", emit="len3", invariants=["AsAlone", "Complete", "InMemory", "Emit"],
             consts={"Images": '{"a", "b", "c"}', "Layout": "<- MCLayout",
                     "Rois": '{"none"}', "MaxRows": 3, "GlobalRois": '{"none", "R1"}'}),
    ],
)

PLANS["C02"] = dict(
    trace="TC02", shards=4,
    design=[
        dict(module="Report", emit="ops", spec="Spec",
             invariants=["Current", "NeverAhead", "Emit"], properties=["OnlyRequested"],
             consts={"Objs": "{1, 2}", "Projects": '{"", "P"}', "MaxOps": 3}),
    ],
)

PLANS["C03"] = dict(
    trace="TC03", stateless=True, shards=2, split=2,
    design=[
        dict(module="Pairs", emit="tables", invariants=["OrderFree", "RowCount", "Emit"],
             consts={"Names": '{"reference_image", "modified_image", "id", "note"}',
                     "MaxCols": 4, "MaxRows": 3}),
    ],
)

PLANS["C04"] = dict(
    trace="TC04", shards=4,
    design=[
        dict(module="Frame", emit="pipes", spec="Spec",
             invariants=["Unchanged", "Emit"], properties=["NoWrite"],
             consts={"MaxOps": 4}, thorough={"MaxOps": 5}),
    ],
)

PLANS["C05"] = dict(
    trace="TC05", shards=6,
    design=[
        dict(module="Metric", emit="hist", spec="Spec",
             invariants=["Own", "Independent", "FileKnown", "Emit"], properties=["OnlyScore"],
             consts={"Objs": "{1, 2}", "Inputs": '{"A", "B"}', "MaxOps": 3,
                     "Reads": '{"print", "cmp", "export"}'},
             thorough={"MaxOps": 4}),
    ],
)

PLANS["C20"] = dict(
    trace="TC20", shards=4,
    design=[
        dict(module="Metric", emit="hist", spec="Spec",
             invariants=["Own", "Independent", "FileKnown", "Emit"], properties=["OnlyScore"],
             consts={"Objs": "{1, 2}", "Inputs": '{"A", "B"}', "MaxOps": 4,
                     "Reads": '{"cmp", "fuse"}'}),
        dict(module="Fusion", emit="fusion", invariants=["AnyOrder", "Emit"],
             consts={"N": 3, "Values": "{0, 1, 20}", "Weights": "{0, 1, 3}"},
             thorough={"N": 4, "Values": "{1, 20}"}),
    ],
)

PLANS["C21"] = dict(
    trace="TC21", shards=4,
    design=[
        dict(module="Metric", emit="hist", spec="Spec",
             invariants=["Own", "Independent", "FileKnown", "Emit"], properties=["OnlyScore"],
             consts={"Objs": "{1, 2}", "Inputs": '{"A", "B"}', "MaxOps": 4,
                     "Reads": '{"print", "export"}'}),
    ],
)

LAYOUTS = [
    dict(module="MCLayout", emit="layout2", invariants=["InMemory", "LayoutFree", "Emit"],
         consts={"Shape": "<- Shape2", "Steps": "{1, 2}"}, thorough={"Steps": "{1, 2, 3}"}),
    dict(module="MCLayout", emit="layout3", invariants=["InMemory", "LayoutFree", "Emit"],
         consts={"Shape": "<- Shape3", "Steps": "{1, 2}"}),
]
PLANS["C06"] = dict(trace="TC06", stateless=True, shards=6, design=LAYOUTS)

PLANS["C07"] = dict(
    trace="TC07", stateless=True, shards=6,
    design=[
        dict(module="Types", emit="wrap", invariants=["ValuesOnly", "LateNeverExact", "Emit"],
             consts={"Pix": "{0, 1, 16, 127, 128, 200, 255}", "Types": '{"u8", "i16"}',
                     "MaxLen": 2}),
    ],
)

PLANS["C08"] = dict(
    trace="TC08", stateless=True, shards=4,
    design=[dict(module="Volume", emit="dims", invariants=["Faithful", "Emit"],
                 consts={"MaxSize": 4}, thorough={"MaxSize": 5})],
)

PLANS["C09"] = dict(
    trace="TC09", stateless=True, shards=4,
    design=[dict(module="Norm", emit="img",
                 invariants=["InRange", "Ends", "Monotone", "Fixed", "Emit"],
                 consts={"Vals": "{0, 1, 3, 10, 100, 255}", "Len0": 3, "R": 255},
                 thorough={"Len0": 4})],
)

PLANS["C10"] = dict(
    trace="TC10", stateless=True, shards=6,
    design=[dict(module="Crop", emit="roi2", invariants=["Exact", "Never", "Whole", "Emit"],
                 consts={"Ns": "{1, 2, 4}", "Dims": "{2}", "MaxHi": 8, "Los": "{0, 1, 2, 3}"},
                 thorough={"Ns": "{1, 2, 3, 4, 5}", "MaxHi": 9}),
            dict(module="Crop", emit="roi3", invariants=["Exact", "Never", "Whole", "Emit"],
                 consts={"Ns": "{2, 4}", "Dims": "{3}", "MaxHi": 4, "Los": "{0, 1, 3}"},
                 thorough={"Ns": "{1, 2, 4}", "MaxHi": 5})],
)

PLANS["C11"] = dict(
    trace="TC11", stateless=True, shards=6,
    design=[dict(module="Pair", emit="pairs", invariants=["Right", "Remember", "Emit"],
                 consts={"Kinds": '{"array", "bad"}', "Axes": '{"1", "2", "3", "4", "c"}',
                         "Types": '{"A", "B"}', "Sizes": '{"S", "T"}'}),
            dict(module="Pair", emit="pairs", invariants=["Right", "Remember", "Emit"],
                 consts={"Kinds": '{"array", "image", "tensor"}', "Axes": '{"2", "3", "c"}',
                         "Types": '{"A", "B"}', "Sizes": '{"S", "T"}'})],
)

PLANS["C12"] = dict(
    trace="TC12", shards=6,
    design=[dict(module="Mse", emit="imgs",
                 invariants=["OrderFree", "Symmetric", "ZeroIffSame", "Bounded", "Emit"],
                 consts={"Pix": "{0, 1, 128, 255}", "N": 2}, thorough={"N": 3})],
)

PLANS["C13"] = dict(
    trace="TC13", stateless=True, shards=8,
    design=[dict(module="Window", emit="prof",
                 invariants=["Running", "Contained", "Variances", "Bounded", "Best", "Emit"],
                 consts={"Pix": "{0, 3, 40}", "N": 4, "W": 3}, thorough={"N": 5})],
)

PLANS["C14"] = dict(
    trace="TC14", stateless=True, shards=8,
    design=[dict(module="Similar", emit="maps",
                 invariants=["Symmetric", "AtMostOne", "OneIffSame", "Emit"],
                 consts={"Feat": "{0, 100, 255}", "N": 4, "C": 200})],
)

REGIONS = [
    dict(module="Region", emit="reg2", invariants=["CubeSize", "BallSym", "BallHasAxes",
         "CubeInBallBox", "EntireAll", "NonEmpty", "Never", "Emit"],
         consts={"Ns": "{2, 3, 5}", "Dims": "{2}", "Coord": "{0, 1, 2, 3, 4, 5, 6, 7, 8}", "Radii": "{0, 1, 2}",
                 "Types": '{"cubic", "spherical", "full", "nonsense"}'},
         thorough={"Ns": "{2, 3, 4, 5, 6}", "Radii": "{0, 1, 2, 3}"}),
    dict(module="Region", emit="reg3", invariants=["CubeSize", "BallSym", "BallHasAxes",
         "CubeInBallBox", "EntireAll", "NonEmpty", "Never", "Emit"],
         consts={"Ns": "{2, 4}", "Dims": "{3}", "Coord": "{1, 3, 4, 5}", "Radii": "{1, 2}",
                 "Types": '{"cubic", "spherical"}'},
         thorough={"Ns": "{2, 4, 5}", "Coord": "{1, 2, 3, 4, 5, 6}"}),
]
PLANS["C15"] = dict(trace="TC15", shards=6, design=REGIONS)
PLANS["C16"] = dict(trace="TC16", shards=6, design=REGIONS)

PLANS["C17"] = dict(
    trace="TC17", stateless=True, shards=8,
    design=[dict(module="MCMorph", emit="bin",
                 invariants=["Inside", "Open", "ShoreOk", "Same", "Emit"],
                 consts={"Shape": "<- MCShape", "Edges": "{0, 1, 6}", "Holes": "{99, 26}",
                         "Its": "{1, 2}"},
                 thorough={"Edges": "{0, 1, 4, 7}"})],
)

PLANS["C18"] = dict(
    trace="TC18", stateless=True, shards=8,
    design=[dict(module="MCSlices", emit="slices",
                 invariants=["SameSlices", "Complete", "Disjoint", "Emit"],
                 consts={"Shapes": "<- MCShapes", "Emitted": "<- MCEmitted"},
                 thorough={"Shapes": "<- MCShapesT", "Emitted": "<- MCEmittedT"})],
)

PLANS["C19"] = dict(
    trace="TC19", stateless=True, shards=8,
    design=[dict(module="Blocks", emit="blocks",
                 invariants=["ReadIn", "WriteIn", "Once", "Inner", "Belongs", "Emit"],
                 consts={"Ns": "{4, 5, 7, 9, 11, 14}", "Bs": "{2, 3, 4}"},
                 thorough={"Ns": "{4, 5, 6, 7, 8, 9, 11, 14, 15}", "Bs": "{2, 3, 4, 5}"})],
)

PLANS["C22"] = dict(
    trace="TC22", shards=8,
    design=[dict(module="MCArith", emit="ops",
                 invariants=["NoAccident", "Coherent", "Stored", "InPlace", "Emit"],
                 consts={"Ops": '{"add", "subtract"}', "Depth": 2, "Init1": "<- I1",
                         "Init2": "<- I2", "Init3": "<- I3"},
                 thorough={"Ops": '{"add", "subtract", "maximum"}'})],
)

PLANS["C23"] = dict(
    trace="TC23", shards=8,
    design=[dict(module="MCDialog", emit="snr2",
                 invariants=["AlwaysInside", "OnlySave", "Apart", "SavedIsShown", "Reopen", "Emit"],
                 consts={"Kind": '"snr"', "Shape": "<- S2", "Depth": 3, "Pos": "{1, 3, 4}",
                         "Rads": "{1, 2, 3}", "Types": '{"cubic", "spherical", "full", "original"}',
                         "Others": '{"it", "calc", "save", "open"}'},
                 thorough={"Pos": "{0, 1, 2, 3, 4}"}),
            dict(module="MCDialog", emit="cnr2",
                 invariants=["AlwaysInside", "OnlySave", "Apart", "SavedIsShown", "Reopen", "Emit"],
                 consts={"Kind": '"cnr"', "Shape": "<- S2", "Depth": 3, "Pos": "{1, 4}",
                         "Rads": "{1, 2}", "Types": "{}", "Others": '{"save", "open"}'},
                 thorough={"Pos": "{0, 1, 3, 4}"}),
            dict(module="MCDialog", emit="snr3",
                 invariants=["AlwaysInside", "OnlySave", "Apart", "SavedIsShown", "Reopen", "Emit"],
                 consts={"Kind": '"snr"', "Shape": "<- S3", "Depth": 3, "Pos": "{1, 4}",
                         "Rads": "{1, 2}", "Types": '{"spherical", "full"}',
                         "Others": '{"calc", "save", "open"}'})],
)

PLANS["C24"] = dict(
    trace="TC24", stateless=True, shards=8,
    design=[dict(module="View", emit="view3",
                 invariants=["StillSlice", "Every", "NoOther", "CrossOk", "Emit"],
                 consts={"Ns": "{1, 2, 3}", "Dims": "{3}", "Turns": 1}, thorough={"Turns": 3}),
            dict(module="View", emit="view2",
                 invariants=["StillSlice", "Every", "NoOther", "CrossOk", "Emit"],
                 consts={"Ns": "{1, 2, 3, 4}", "Dims": "{2}", "Turns": 4})],
)

PLANS["C25"] = dict(
    trace="TC25", stateless=True, shards=8,
    design=[dict(module="Resize", emit="sizes",
                 invariants=["SameSize", "InRange", "Sorted", "MirrorImage", "NearIn", "NearSame",
                             "Size", "Emit"],
                 consts={"Ns": "{1, 2, 3, 4, 5, 6}", "Vals": "{0, 7}"},
                 thorough={"Ns": "{1, 2, 3, 4, 5, 6, 7, 8}"})],
)

PLANS["C26"] = dict(
    trace="TC26", stateless=True, shards=8,
    design=[dict(module="MCColour", emit="colour",
                 invariants=["Weights", "Between", "Equal", "Same", "SeesAll", "OnlyRgb", "Kept", "Emit"],
                 consts={"Shapes": "<- MCShapes", "Vals": "{0, 1, 7}"},
                 thorough={"Vals": "{0, 1, 7, 255}"})],
)

PLANS["C27"] = dict(
    trace="TC27", stateless=True, shards=8,
    design=[dict(module="Kernel", emit="kernels2",
                 invariants=["SumZero", "Anti", "Shift", "Flat", "Inside", "Outside", "Family", "Emit"],
                 consts={"Names": '{"gsm_kernel_2d_x", "gsm_kernel_2d_y", "gsm_kernel_2d_xy", "gsm_kernel_2d_yx", '
                                  '"sobel_kernel_2d_x", "sobel_kernel_2d_y", "scharr_kernel_2d_x", '
                                  '"scharr_kernel_2d_y", "prewitt_kernel_2d_x", "prewitt_kernel_2d_y"}',
                         "N": 3, "Vals": "{0, 5}", "MaxOn": 2,
                         "Modes": '{"constant", "reflect", "nearest", "mirror", "wrap"}'},
                 thorough={"MaxOn": 9}),
            dict(module="Kernel", emit="kernels3",
                 invariants=["SumZero", "Anti", "Shift", "Flat", "Inside", "Outside", "Family", "Emit"],
                 consts={"Names": "{" + ", ".join(f'"{f}_kernel_{d}"' for f, ds in (
                     ("gsm", "x y z xy1 xy2 yz1 yz2 xz1 xz2 xyz1 xyz2 xyz3 xyz4"), ("sobel", "x y z"),
                     ("prewitt", "x y z"), ("scharr", "x y z")) for d in ds.split()) + "}",
                         "N": 2, "Vals": "{0, 5}", "MaxOn": 1,
                         "Modes": '{"constant", "reflect", "nearest", "mirror", "wrap"}'},
                 thorough={"MaxOn": 8})],
)

PLANS["C28"] = dict(
    trace="TC28", stateless=True, shards=8,
    design=[dict(module="Scripts", emit="sizes",
                 invariants=["SizeFits", "Increasing", "NotEmpty", "Central", "Emit"],
                 consts={"Ns": "{1, 2, 3, 4, 5, 7}", "Fs": "{2, 3}"},
                 thorough={"Ns": "{1, 2, 3, 4, 5, 6, 7, 8}", "Fs": "{2, 3, 4, 5}"})],
)

PLANS["C29"] = dict(
    trace="TC29", stateless=True, shards=8,
    design=[dict(module="Settings", emit="settings", spec="Spec",
                 invariants=["DefaultsSpelled", "OrderFree", "OnlyGiven", "Exclusive", "Idempotent", "Emit"],
                 consts={"Metrics": '{"MSSSIM", "FSIM", "VIFp", "VSI", "MAD", "gabor"}', "MaxGiven": 2,
                         "Alts": "{0, 1, 2}"})],
)

PLANS["C30"] = dict(
    trace="TC30", stateless=True, shards=8,
    design=[dict(module="Warn", emit="requests", spec="Spec",
                 invariants=["Same", "RefusedOk", "NoSilentIgnore", "NoNoise", "NoBoth", "Emit"],
                 consts={"Metrics": '{"RMSE", "PSNR", "SSIM", "UQI", "MSSSIM", "FSIM", "VIFp", "VSI", "GSM", "MAD"}'})],
)

PLANS["C31"] = dict(
    trace="TC31", stateless=True, shards=8,
    design=[dict(module="Threads", emit="two", spec="Spec", invariants=["AsAlone", "Serial", "Emit"],
                 properties=["Frame"], consts={"N": 2, "Phases": 2}),
            dict(module="Threads", emit="two3", spec="Spec", invariants=["AsAlone", "Serial", "Emit"],
                 properties=["Frame"], consts={"N": 2, "Phases": 3}, thorough={"Phases": 5}),
            dict(module="Threads", emit="three", spec="Spec", invariants=["AsAlone", "Serial", "Emit"],
                 properties=["Frame"], consts={"N": 3, "Phases": 2}, thorough={"Phases": 3})],
)
PLANS["C32"] = dict(
    trace="TC32", shards=8,
    design=[dict(module="Interrupt", emit="short", spec="Spec",
                 invariants=["NoTrace", "Repeatable", "Remembers", "CutsReveal", "NothingElse", "Emit"],
                 properties=["Frame", "Ends"], consts={"Objs": 2, "Phases": 3, "Len0": 3}),
            dict(module="Interrupt", emit="long", spec="Spec",
                 invariants=["NoTrace", "Repeatable", "Remembers", "CutsReveal", "NothingElse", "Emit"],
                 properties=["Frame", "Ends"], consts={"Objs": 2, "Phases": 4, "Len0": 4},
                 thorough={"Len0": 5})],
)
