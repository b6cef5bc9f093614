"""What each check runs.  Constants are TLA+ expressions."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SOLID_COLS = '{<<>>, <<<<0, 3, 1>>>>, <<<<0, 5, 1>>>>, <<<<0, 2, 0>>>>, <<<<0, 3, 1>>, <<6, 7, 0>>>>, <<<<0, 1, 1>>, <<4, 5, 1>>>>}'
SOLID_COLS_T = '{<<>>, <<<<0, 3, 1>>>>, <<<<0, 4, 1>>>>, <<<<0, 5, 1>>>>, <<<<0, 2, 0>>>>, <<<<0, 3, 1>>, <<6, 7, 0>>>>, <<<<0, 1, 1>>, <<4, 5, 1>>>>, <<<<0, 2, 1>>, <<5, 9, 1>>>>}'
CENTER_COLS = '{<<<<0, 3, 1>>>>, <<<<0, 3, 1>>, <<6, 8, 0>>>>, <<<<0, 3, 1>>, <<4, 5, 0>>, <<7, 8, 2>>>>}'
ONE_COL = '{<<>>} \\cup {<<s>> : s \\in SP} \\cup {<<s, t>> \\in SP \\X SP : s[2] < t[1]} \\cup {q \\in SP \\X SP \\X SP : q[1][2] < q[2][1] /\\ q[2][2] < q[3][1]}'


def one_col(h, areas):
    return ONE_COL.replace("SP", f"{{s \\in (0..{h}) \\X (0..{h}) \\X {areas} : s[1] < s[2]}}")


def solid(kind, quick, thorough, heights="{2, 3}", climbs="{0, 1, 2}"):
    return dict(module="MC_Solid", tag=f"solid_{kind}", emits=True,
                consts=dict(Kinds=f'{{"{kind}"}}', Steps="1", Emit="TRUE", Heights=heights, Climbs=climbs),
                quick=quick, thorough=thorough, inv=["GeometryKept", "AreasLocal", "Stable", "LedgeRuleAgrees"],
                props=["Monotone"])


MIXED = dict(module="MC_Solid", tag="solid_mixed",
             consts=dict(Kinds='{"low", "ledge", "head"}', Steps="3", Emit="FALSE", Heights="{2, 3}", Climbs="{1, 2}"),
             quick=dict(Centers=CENTER_COLS, Nbs="{<<<<0, 3, 1>>>>, <<<<0, 1, 1>>, <<4, 5, 1>>>>}"),
             thorough=dict(Centers=CENTER_COLS, Nbs="{<<>>, <<<<0, 3, 1>>>>, <<<<0, 4, 1>>>>, <<<<0, 1, 1>>, <<4, 5, 1>>>>}"),
             inv=["GeometryKept", "AreasLocal", "Stable", "LedgeRuleAgrees"], props=["Monotone"])

DIST = dict(module="MC_Dist", tag="dist", emits=True, inv=["Metric", "Monotone", "FieldShape"],
            consts=dict(Radii="0..3"))
FRAMES = dict(module="MC_Frame", tag="frames", emits=True, inv=["SamePlace", "Ends"], consts=dict(Emit="TRUE"),
              quick=dict(Extents="{<<0, 8>>, <<3, 9>>, <<8, 5>>, <<14, 15>>, <<30, 28>>}", Origins="{<<0, 0, 0>>, <<-7, 5, 9>>}",
                         Scales="{<<1, 2>>, <<2, 1>>, <<4, 4>>}", Margins="{0, 1, 3}", Agents="{0, 3}"),
              thorough=dict(Extents="{<<a, b>> : a \\in {0, 1, 3, 8, 14, 30}, b \\in {2, 5, 9, 15, 28}}", Origins="{<<0, 0, 0>>, <<-7, 5, 9>>, <<31, -12, -1>>}",
                            Scales="{1, 2, 4} \\X {1, 2, 4}", Margins="0..3", Agents="{0, 3}"))
PIECE = "[x0 |-> {0}, z0 |-> 0, x1 |-> {1}, z1 |-> 0, lo |-> {2}, hi |-> {3}, ar |-> {4}, k |-> {5}]"
PIECES = "{" + ", ".join(PIECE.format(*v) for v in [(0, 0, 0, 0, 1, 0), (0, 0, 1, 2, 0, 1), (0, 0, 3, 5, 1, 0), (0, 0, 5, 5, 2, 2), (1, 1, 0, 1, 1, 0),
                                                    (1, 1, 2, 3, 0, 0), (0, 1, 1, 1, 1, 0), (0, 2, 4, 4, 3, 1), (-1, 5, 2, 2, 0, 0)]) + "}"
FIELD = dict(module="MC_Field", tag="field", emits=True, inv=["Poured", "Clean"], consts=dict(W="3", Top="6", Emit="TRUE"),
             quick=dict(Pieces=PIECES, Depth="3", Heights="{2, 3}", Climbs="{0, 1, 2}"), thorough=dict(Pieces=PIECES, Depth="4", Heights="{2, 3}", Climbs="{0, 1, 2}"))
REGIONS = dict(module="MC_Regions", tag="regions", emits=True, inv=["StepSound", "Covered", "Final", "SmallGone", "MergeKeeps", "MergeDone"], props=["Kept"],
               consts=dict(Emit="TRUE"))
CONTOURS = dict(module="MC_Contours", tag="contours", emits=True, consts=dict(Emit="TRUE"),
                inv=["WalkOK", "UnitSteps", "Footprint", "SameAsLoops", "Procedure", "Meaning"])
POLY_INV = ["Alive", "EarExists", "AllConvex", "Tiled", "Clipping", "RestSimple", "Accepted", "SameArea"]
POLY = dict(module="MC_Poly", tag="lattice", emits=True, inv=POLY_INV, consts=dict(Kind='"lattice"', Flags="{<<FALSE, FALSE>>}", Emit="TRUE"),
            quick=dict(LatX="{0, 1, 2}", LatZ="{0, 1, 2}", Ns="3..5", Nvps="{3, 6}"), thorough=dict(LatX="{0, 1, 2}", LatZ="{0, 1, 2}", Ns="3..7", Nvps="{3, 4, 6}"))
STRIPS = dict(module="MC_Poly", tag="strips", emits=True, inv=POLY_INV, consts=dict(Kind='"strips"', Emit="TRUE"),
              quick=dict(LatX="0..3", LatZ="{0, 1, 3}", Ns="{}", Nvps="{3, 6}", Flags="{<<TRUE, TRUE>>, <<FALSE, TRUE>>}"),
              thorough=dict(LatX="0..3", LatZ="{0, 1, 3}", Ns="{}", Nvps="{3, 4, 5, 6}", Flags="{<<TRUE, TRUE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>}"))
STRIPS2 = dict(STRIPS, tag="strips_straight", quick=dict(LatX="0..4", LatZ="{0, 2}", Ns="{}", Nvps="{3, 6}", Flags="{<<TRUE, TRUE>>, <<TRUE, FALSE>>}"),
               thorough=dict(LatX="0..5", LatZ="{0, 2}", Ns="{}", Nvps="{3, 4, 6}", Flags="{<<TRUE, TRUE>>, <<TRUE, FALSE>>}"))
DET0 = dict(Lat="{}", Corners="{}", MaxExtra="0", MaxInner="0", MaxSharp="0", N="0", Hs="{}", Errs="{}", W="0", H="0", Rows="{}", Params="{}", Emit="FALSE")
DET_TRI = dict(module="MC_Detail", tag="tri", consts=dict(DET0, Kind='"tri"'), inv=["Accepted", "Sharp"],
               quick=dict(Lat="{0, 1, 3}", Corners="{3}", MaxExtra="1", MaxInner="1", MaxSharp="4"),
               thorough=dict(Lat="{0, 1, 3}", Corners="3..4", MaxExtra="1", MaxInner="1", MaxSharp="4"))
DET_QUAD = dict(DET_TRI, tag="quad", quick=dict(Lat="{0, 2}", Corners="{4}", MaxExtra="1", MaxInner="0", MaxSharp="5"),
                thorough=dict(Lat="{0, 2}", Corners="{4}", MaxExtra="2", MaxInner="1", MaxSharp="5"))
DET_EDGE = dict(module="MC_Detail", tag="edge", consts=dict(DET0, Kind='"edge"'), inv=["KeptAccepted", "WithinError", "KeptSharp"],
                quick=dict(N="5", Hs="0..3", Errs="{0, 4, 8, 12}"), thorough=dict(N="6", Hs="0..3", Errs="{0, 3, 4, 8, 12, 16}"))
DET_SURF = dict(module="MC_Detail", tag="surface", emits=True, consts=dict(DET0, Kind='"surface"', Emit="TRUE"),
                quick=dict(W="5", H="4", Hs="{0, 2}", Rows="{0, 1, 3}", Params="{<<2, 4, 0, 0, 6>>}"),
                thorough=dict(W="5", H="4", Hs="{0, 1, 3}", Rows="{0, 2, 3}", Params="{<<2, 4, 0, 0, 6>>, <<3, 8, 13, 3, 3>>}"))
BEV0 = dict(Emit="TRUE", L="{}", Limits="{}", N="0", Turns="{}", Shifts="{}")
SLOPES = dict(module="MC_Bevy", tag="slopes", emits=True, inv=["SlopeRule"], consts=dict(BEV0, Kind='"slope"'),
              quick=dict(L="0..2", Limits="{<<0, 10000>>, <<45, 5000>>, <<60, 2500>>}"), thorough=dict(L="0..3", Limits="{<<0, 10000>>, <<30, 7500>>, <<45, 5000>>, <<60, 2500>>, <<80, 302>>}"))
APPEND = dict(module="MC_Bevy", tag="append", emits=True, inv=["AppendOK"], consts=dict(BEV0, Kind='"append"'), quick=dict(N="4"), thorough=dict(N="5"))
COMPOUND = dict(module="MC_Bevy", tag="compound", emits=True, inv=["CompoundOK"], consts=dict(BEV0, Kind='"compound"'),
                quick=dict(N="2", Turns="{<<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0>>}", Shifts="{<<1, 2, 3>>, <<-4, 0, 0>>}"),
                thorough=dict(N="3", Turns="{<<1, 0, 0, 0, 1, 0, 0, 0, 1>>, <<0, -1, 0, 1, 0, 0, 0, 0, 1>>}", Shifts="{<<1, 2, 3>>, <<-4, 0, 0>>}"))
EDITOR = dict(module="MC_Bevy", tag="editor", emits=True, inv=["EditorOK"], consts=dict(BEV0, Kind='"editor"'), quick=dict(N="2"), thorough=dict(N="3"))
BEVYMESH = dict(module="MC_Bevy", tag="bevymesh", emits=True, inv=["ConvertOK"], consts=dict(BEV0, Kind='"bevymesh"'), quick=dict(N="7"), thorough=dict(N="10"))
FLAT = "[k \\in 1..9 |-> <<<<0, 5, 1>>>>]"
PIPE_SCENES = ("{[w |-> 3, h |-> 3, cols |-> %s], [w |-> 3, h |-> 3, cols |-> [%s EXCEPT ![5] = <<<<0, 5, 0>>>>, ![9] = <<>>]], "
               "[w |-> 3, h |-> 3, cols |-> [k \\in 1..9 |-> <<<<0, 5, 0>>>>]], [w |-> 2, h |-> 3, cols |-> [k \\in 1..6 |-> <<>>]], "
               "[w |-> 1, h |-> 1, cols |-> <<<<<<0, 5, 1>>>>>>], [w |-> 0, h |-> 2, cols |-> <<>>], "
               "[w |-> 4, h |-> 2, cols |-> [k \\in 1..8 |-> IF k < 6 THEN <<<<0, 5, 1>>, <<9, 10, 2>>>> ELSE <<<<0, 6, 1>>>>]], "
               "[w |-> 5, h |-> 4, cols |-> [k \\in 1..20 |-> <<<<0, 5 + (k %% 3), IF k %% 7 = 0 THEN 2 ELSE 1>>>>]]}") % (FLAT, FLAT)
PIPE = dict(module="MC_Pipeline", tag="pipeline", emits=True,
            inv=["TypeOK", "NothingFromNothing", "AreasFromScene", "NotStuck", "Reaches"], props=["Ends"],
            consts=dict(Scenes=PIPE_SCENES.replace("\\", "\\"), Height="3", Climb="1", Emit="TRUE"),
            quick=dict(Radii="{1}", Margins="{1}", Optional='{"ledge", "head", "erode", "vol", "dist"}', Repeats="1"),
            thorough=dict(Radii="{0, 1}", Margins="{0, 1, 2}", Optional='{"low", "ledge", "head", "erode", "vol", "dist"}', Repeats="1"))
SAVES = dict(PIPE, tag="saves",
             quick=dict(Radii="{1}", Margins="{1}", Optional='{"save", "dist"}', Repeats="1"),
             thorough=dict(Radii="{1}", Margins="{1}", Optional='{"save", "low", "erode", "dist"}', Repeats="2"))
SESSIONS = dict(module="MC_Editor", tag="sessions", emits=True, inv=["SessionOK", "NextFrame"], consts=dict(Emit="TRUE"),
                quick=dict(N="3"), thorough=dict(N="4"))
WORLDS = dict(module="MC_World", tag="worlds", emits=True, inv=["UpToDate", "Sound", "MatrixOK"], consts=dict(Emit="TRUE"),
              quick=dict(N="3"), thorough=dict(N="4"))
CONF = "the projection of the heightfields onto integers in harness/src/world.rs"

PLANS = {
    "C01": dict(
        models=[dict(module="MC_Columns", tag="columns", emits=True, consts=dict(Areas="{0, 1, 2}", Thrs="{0, 1, 2}", Emit="TRUE"),
                     quick=dict(H="5"), thorough=dict(H="7"),
                     inv=["TypeOK", "IsCanonical", "UnionExact", "InsertAlwaysOK"])],
        families=[dict(name="C01", quick=600, thorough=20000)], checked=["new", "ins"],
        explain="TLC enumerates every column reachable by insertions with extents in 0..H and every insertion into it, each "
                "transition replayed on the code; random histories are validated against InsertBad",
        assumptions=[CONF]),
    "C02": dict(
        models=[dict(module="MC_Raster", tag="raster", emits=True, consts=dict(W="2", Ys="<<0, 3, 5>>", Den="2", Emit="TRUE"),
                     quick=dict(LatX="{-1, 1, 2, 5}", LatZ="{-2, 0, 1, 3}"), thorough=dict(LatX="{-2, -1, 0, 1, 2, 3, 5}", LatZ="{-1, 1, 2, 4}"),
                     inv=["ClippingIsExact"])],
        families=[dict(name="C02", quick=1500, thorough=40000)], checked=["tri", "field"],
        explain="the clipping algorithm equals the geometric definition for every triangle on a lattice; lattice triangles and random "
                "triangles (exact and inexact scales) rasterized by the code are validated against RasterBad",
        assumptions=[CONF, "heights within 1/1000 cell of a voxel boundary may round either way when not exactly representable"]),
    "C03": dict(
        models=[SLOPES],
        families=[dict(name="C03", quick=3000, thorough=60000)], checked=["slope"],
        explain="every lattice triangle at several limits: the rule is checked on the specification and the code classifies each; recorded classifications validated against SlopeBad (exact squared-cosine comparison)",
        assumptions=[CONF, "triangles within 0.0002 of the squared cosine limit may go either way"]),
    "C04": dict(
        models=[solid("low", dict(Centers=one_col(6, "{0, 1, 2}"), Nbs="{<<>>}"), dict(Centers=one_col(7, "{0, 1, 2}"), Nbs="{<<>>}"), heights="{2}"), MIXED],
        families=[dict(name="C04", quick=2000, thorough=40000)], checked=["low"],
        explain="every column of up to three spans in 0..H through the filter, replayed on the code; random fields validated",
        assumptions=[CONF]),
    "C05": dict(
        models=[solid("ledge", dict(Centers=CENTER_COLS, Nbs=SOLID_COLS), dict(Centers=CENTER_COLS, Nbs=SOLID_COLS_T)), MIXED],
        families=[dict(name="C05", quick=2500, thorough=40000)], checked=["ledge"],
        explain="every choice of four neighbour columns around a centre column, declarative rule against the scan of the reference "
                "algorithm, replayed on the code; random fields validated",
        assumptions=[CONF]),
    "C06": dict(
        models=[solid("head", dict(Centers=one_col(6, "{0, 1}"), Nbs="{<<>>}"), dict(Centers=one_col(8, "{0, 1}"), Nbs="{<<>>}"), heights="{0, 1, 2, 3, 4}", climbs="{0}"), MIXED],
        families=[dict(name="C06", quick=2000, thorough=40000)], checked=["head"],
        explain="every column of up to three spans in 0..H through the filter, replayed on the code; random fields validated",
        assumptions=[CONF]),
    "C07": dict(
        models=[dict(module="MC_Compact", tag="compact", emits=True, consts=dict(Emit="TRUE"),
                     quick=dict(H="4", Heights="{2}", Climbs="{1}", MaxSpans="2"), thorough=dict(H="5", Heights="{1, 3}", Climbs="{1}", MaxSpans="2"),
                     inv=["Shape", "OpenSpace"])],
        families=[dict(name="C07", quick=1500, thorough=30000)], checked=["compact", "open"], batch=1500,
        explain="every pair of neighbouring columns of up to two spans, replayed on the code; random fields validated against OpenBad",
        assumptions=[CONF]),
    "C08": dict(
        models=[dict(module="MC_Compact", tag="compact", emits=True, consts=dict(Emit="TRUE"),
                     quick=dict(H="4", Heights="{1, 2, 3}", Climbs="{0, 1, 2}", MaxSpans="2"), thorough=dict(H="5", Heights="{1, 2, 3, 4}", Climbs="{0, 1, 2, 3}", MaxSpans="2"),
                     inv=["Shape", "LinksSound", "LinksComplete", "LinksMutual"])],
        families=[dict(name="C08", quick=1500, thorough=30000)], checked=["compact", "link"], batch=1500,
        explain="every pair of neighbouring columns of up to two spans, links sound, complete and mutual, replayed on the code; random "
                "fields (including stacks beyond the layer limit) validated against LinkBad",
        assumptions=[CONF]),
    "C09": dict(
        models=[dict(DIST, quick=dict(N="5", M="5", Areas="{0, 1}", Ring="TRUE", Emit='{"erode"}'), thorough=dict(N="6", M="6", Areas="{0, 1}", Ring="TRUE", Emit='{"erode"}'))],
        families=[dict(name="C09", quick=1500, thorough=25000)], checked=["erode"],
        explain="for every obstacle mask the two sweeps compute the chamfer metric and erosion is monotone, replayed on the code; random "
                "surfaces and radii validated against ErodeBad",
        assumptions=[CONF]),
    "C10": dict(
        models=[dict(module="MC_Volume", tag="volume", emits=True, consts=dict(N="3", Den="2", Emit="TRUE"),
                     quick=dict(Lattice="{-1, 2, 4, 7}"), thorough=dict(Lattice="{-2, 0, 1, 2, 4, 7}"), inv=["ParityAgrees", "Symmetric"]),
                dict(module="MC_Marks", tag="marks", emits=True, consts=dict(Tops="<<2, 8, 14>>", Cuts="{0, 5, 11, 20}", Areas="{0, 7}", Den="2"),
                     quick=dict(Depth="2"), thorough=dict(Depth="3"), props=["RuleAgrees", "RemovedStays"])],
        families=[dict(name="C10", quick=2000, thorough=40000)], checked=["vol"],
        explain="parity test against half-plane definition for every lattice triangle, and every history of markings and removals on a stack of floors, run on the code and validated; random convex "
                "volumes validated against MarkBad",
        assumptions=[CONF, "cells whose centre lies exactly on the outline may go either way"]),
    "C11": dict(
        models=[dict(DIST, quick=dict(N="5", M="5", Areas="{1, 2}", Ring="TRUE", Emit='{"dist"}'), thorough=dict(N="5", M="5", Areas="{0, 1, 9}", Ring="TRUE", Emit='{"dist"}'))],
        families=[dict(name="C11", quick=1500, thorough=25000)], checked=["dist"],
        explain="for every area mask the two sweeps compute the chamfer metric and the smoothed field keeps its zero set and bound, "
                "replayed on the code; random surfaces validated against DistBad",
        assumptions=[CONF]),
    "C12": dict(
        models=[dict(REGIONS, quick=dict(Xs="<<3, 1, 4>>", Zs="<<4, 1, 3>>", Areas="{0, 1}", Params="{<<0, 0, 0>>, <<2, 0, 8>>}"),
                     thorough=dict(Xs="<<3, 1, 4, 2>>", Zs="<<4, 1, 3>>", Areas="{0, 1}", Params="{<<0, 0, 0>>, <<1, 0, 8>>, <<2, 9, 20>>}"))],
        families=[dict(name="C12", quick=500, thorough=10000)], checked=["regions", "sound"], batch=1500,
        explain="the watershed as a state machine over every floor plan of a coarse grid with doors; every plan run on the code; random "
                "surfaces with borders and size limits validated against RegionsBad",
        assumptions=[CONF]),
    "C13": dict(
        models=[dict(REGIONS, quick=dict(Xs="<<3, 1, 4>>", Zs="<<2, 1, 5>>", Areas="{0, 1}", Params="{<<0, 9, 12>>, <<1, 15, 25>>}"),
                     thorough=dict(Xs="<<3, 1, 4, 2>>", Zs="<<2, 1, 5>>", Areas="{0, 1}", Params="{<<0, 9, 12>>, <<1, 15, 25>>, <<0, 0, 100>>}")),
                dict(REGIONS, tag="regions_areas", quick=dict(Xs="<<3, 1, 3>>", Zs="<<3, 3>>", Areas="{0, 1, 2}", Params="{<<0, 5, 10>>}"),
                     thorough=dict(Xs="<<3, 1, 3>>", Zs="<<3, 1, 3>>", Areas="{0, 1, 2}", Params="{<<0, 5, 10>>}"))],
        families=[dict(name="C13", quick=800, thorough=10000)], checked=["regions", "sizes"], batch=1500,
        explain="the watershed and the size rules over every floor plan of a coarse grid with doors, size rules also stated on the result; "
                "every plan run on the code and the partition compared; random surfaces with borders and size limits validated",
        assumptions=[CONF]),
    "C14": dict(
        models=[dict(CONTOURS, quick=dict(Xs="<<2, 1, 3>>", Zs="<<3, 1, 2>>", Areas="{0, 1}", Borders="{0, 2}", Tols="{0}", Lens="{0}", Flags="{1}"),
                     thorough=dict(Xs="<<2, 1, 3>>", Zs="<<3, 1, 2>>", Areas="{0, 1, 2}", Borders="{0, 1}", Tols="{0}", Lens="{0}", Flags="{1}"))],
        families=[dict(name="C14", quick=2000, thorough=30000)], checked=["contours", "raw"], batch=1500,
        explain="boundary walks as a state machine over every floor plan of a coarse grid: no edge twice, one outline per region, outline "
                "minus holes is the footprint; every plan run on the code; random surfaces with islands, layers and margins validated",
        assumptions=[CONF]),
    "C15": dict(
        models=[dict(CONTOURS, quick=dict(Xs="<<2, 1, 3>>", Zs="<<3, 1, 2>>", Areas="{0, 1}", Borders="{0}", Tols="{10, 13}", Lens="{0, 3}", Flags="{1}"),
                     thorough=dict(Xs="<<2, 1, 3>>", Zs="<<3, 1, 2>>", Areas="{0, 1, 2}", Borders="{0}", Tols="{5, 13}", Lens="{0, 3}", Flags="{3}"))],
        families=[dict(name="C15", quick=4000, thorough=40000)], checked=["contours", "simple"], batch=1500,
        explain="the simplification procedure over every floor plan meets tolerance, region changes and edge length and satisfies the "
                "relation the code is held to; every plan run on the code; random surfaces, tolerances, lengths and flags validated",
        assumptions=[CONF, "deviations within float rounding of the tolerance or of each other may be decided either way"]),
    "C16": dict(
        models=[POLY],
        families=[dict(name="C16", quick=2500, thorough=40000)], checked=["cset", "poly", "tile"], batch=3000,
        explain="ear clipping and merging in any order, as a state machine, over every simple polygon of a lattice and every cut of it in two; "
                "every polygon run on the code; contours of random surfaces, star-shaped outlines and shared strips validated against PolyBad",
        assumptions=[CONF, "contours that cross or touch themselves after simplification may be refused; their polygons need not be convex"]),
    "C17": dict(
        models=[POLY, STRIPS2],
        families=[dict(name="C17", quick=2500, thorough=40000)], checked=["cset", "poly", "adjacent"], batch=3000,
        explain="adjacency of every mesh the clipping and merging machine can build; every contour set run on the code; meshes of random "
                "surfaces with and without margin validated against AdjBad",
        assumptions=[CONF, "where more than two polygons have an edge in common, any of them may be the neighbour; fewer than 65535 edges"]),
    "C18": dict(
        models=[STRIPS, STRIPS2],
        families=[dict(name="C18", quick=2500, thorough=40000)], checked=["cset", "poly", "border"], batch=3000,
        explain="removal of border vertices in any order as a state machine over every cut of a rectangle into strips; every contour set run "
                "on the code; tiles of random surfaces and random strips validated against BorderBad",
        assumptions=[CONF, "where several removed vertices share a position on different floors only structure and labels are judged"]),
    "C19": dict(
        models=[DET_TRI, DET_QUAD, DET_SURF],
        families=[dict(name="C19", quick=1500, thorough=20000)], checked=["detail", "shape"], batch=1500,
        explain="triangulating an outline in any order, inserting points and flipping edges in any order, as a state machine over every "
                "convex lattice polygon: every mesh accepted, every damaged one rejected; every profile of a small field through the whole "
                "pipeline and detail meshes of random surfaces validated against DetailShapeBad",
        assumptions=[CONF, "triangulations of polygons that are not convex are judged by their edges only"]),
    "C20": dict(
        models=[DET_EDGE, DET_SURF],
        families=[dict(name="C20", quick=1000, thorough=20000)], checked=["detail", "height"], batch=1000,
        explain="edge simplification with any choice among equal deviations over every height profile: accepted and within the error; every "
                "profile of a small field through the whole pipeline and detail meshes of random surfaces validated against DetailHeightBad",
        assumptions=[CONF, "where two heights may reach a cell first, either may be taken", "deviations within 1/500 of the error may go either way"]),
    "C21": dict(
        models=[PIPE],
        families=[dict(name="C21", quick=6000, thorough=60000)], checked=["total"], batch=3000,
        explain="the stages as a state machine over every order of calls on small scenes: no order is stuck, nothing walkable comes out of "
                "nothing, every behaviour ends; every behaviour run twice on the code; random scenes, orders and extreme parameters run "
                "twice on the code and validated against TotalBad (outcome, repeatability, emptiness, justified errors)",
        assumptions=[CONF, "a call that takes more than 20 s or 12 GB does not come back"]),
    "C22": dict(
        models=[APPEND],
        families=[dict(name="C22", quick=3000, thorough=60000)], checked=["mesh", "extend"],
        explain="every history of appends of small meshes on the specification and replayed on the code; recorded append histories validated against ExtendBad",
        assumptions=[CONF]),
    "C23": dict(
        harness=2, batch=400, models=[COMPOUND],
        families=[dict(name="C23", quick=500, thorough=8000)], checked=["collider"],
        explain="every compound of parts from a small set, in every order, assembled by the specification and converted by the code; "
        "recorded collider back end results validated against ColliderBad (parts at their poses, points on the primitive's surface, only static bodies)",
        assumptions=[CONF, "poses are the 24 axis rotations with integer translations; curved primitives are judged by points on their surface and extent, not by their tessellation",
                     "compounds do not nest (parry refuses them); convex hulls and height fields are not generated"]),
    "C24": dict(
        harness=2, batch=400, models=[EDITOR],
        families=[dict(name="C24", quick=600, thorough=15000)], checked=["scene"],
        explain="every small assignment of meshes, materials, images and visibility to entities: the specification's tables satisfy SceneBad, and each is sent "
        "through the remote method, the serializer and back by the code; random scenes recorded and validated",
        assumptions=[CONF, "the sender and the receiver share a process; the answer passes through a JSON text in between",
                     "textures carry the formats and descriptors listed in harness2/src/world.rs"]),
    "C25": dict(
        harness=2, batch=2000, models=[BEVYMESH],
        families=[dict(name="C25", quick=2000, thorough=40000)], checked=["bevymesh"],
        explain="every small combination of topology, attributes, index format and index count, and random meshes, validated against BevyMeshBad",
        assumptions=[CONF]),
    "C26": dict(
        models=[FRAMES],
        families=[dict(name="C26", quick=1500, thorough=20000)], checked=["build", "compact", "contours", "poly", "frame"], batch=1500,
        explain="the frame handed from stage to stage for every small field, margin and agent: a cell keeps its place in the world; every behaviour "
                "run on the code; fields of any bounds, scale and origin (also too large ones) through the stages, validated by the frame clauses",
        assumptions=[CONF, "bounds are multiples of a quarter and cell sizes of a half, so that every frame is exact"]),
    "C27": dict(
        models=[FIELD],
        families=[dict(name="C27", quick=2500, thorough=40000)], checked=["bounds", "build", "pop", "lowest"],
        explain="every sequence of mesh pieces poured into a small field: occupancy is the union, filters leave standing room and no ledges; replayed on "
                "the code; random meshes (triangles inside cells, rectangles over cells, either winding, upright, outside the field) validated",
        assumptions=[CONF, "the columns touched by one arbitrary triangle are C02's; here pieces cover whole numbers of cells"]),
    "C29": dict(
        harness=3, batch=400, models=[SESSIONS],
        families=[dict(name="C29", quick=500, thorough=2500)], checked=["eopen", "efetch", "ebuild", "etoggle", "eframe"],
        explain="every short session of switching pictures, loading scenes, building navmeshes and drawing frames: the screen of the specified editor shows "
                "what is switched on; each session is run on the editor's own modules, and random sessions are recorded and validated",
        assumptions=[CONF, "the editor's modules get_navmesh_input, build and visualization are driven through their events and resources; its buttons, "
                     "camera and theme are not", "the game is a server on the loopback interface that answers as bevy_rerecast_editor_integration does",
                     "the navmesh of the plan is made by the library's stages, which C01 to C27 decide"]),
    "C30": dict(
        harness=2, batch=1500, models=[WORLDS],
        families=[dict(name="C30", quick=1500, thorough=30000)], checked=["wask", "wgen", "wopen", "wback", "wasset", "wdrop", "wspawn", "wmove", "wmesh", "wkind", "wgone"],
        explain="every short history of a small world (back ends set, meshes loaded and dropped, entities moved, changed and removed): an incrementally kept "
                "list of affectors equals the affectors of the world; each history is run on the plugins, and random histories are validated",
        assumptions=[CONF, "transforms are quarter turns, scales by powers of two and whole shifts; a frame passes between a change and the question"]),
    "C28": dict(
        models=[SAVES],
        families=[dict(name="C28", quick=1500, thorough=25000)], checked=["save"], batch=1500,
        explain="saving and loading as a step of the pipeline that changes nothing, at every point of every order of calls on small scenes; run on "
                "the code; random behaviours of the other families with saves in between: the loaded value is the specified state, equals the one "
                "saved, and every later call gives what it gives without saving",
        assumptions=[CONF, "saved as JSON (text, pretty bytes, value tree); contour sets cannot be saved"]),
}


def known_findings(pid):
    """Lines `finding: {json}` of KNOWN_FINDINGS.md: property, what, and the match fields."""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.md")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: "):
                j = json.loads(line[len("finding: "):])
                if j["property"] == pid:
                    out.append(j)
    return out


def matches(k, kind, what, record):
    """A finding names the behaviour (its operations) and the clauses that fail."""
    ops = [{a: b for a, b in e.items() if a not in ("res", "post", "msg", "again")} for e in record["ev"]]
    return k.get("clauses") == what and k.get("ops") == ops


NOT_APPLICABLE = {}
