import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,title
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    P.append(d)
PS="pyslope/pyslope.py"; UT="pyslope/utilities.py"; DV="pyslope/data_validation.py"; V="slope/views.py"
p("C01","Every reported factor of safety is Bishop's value for the model as entered",
"For every circular failure surface that is analysed, the reported factor of safety is the one given by Bishop's simplified method with equal-width slices (values at mid-slice), computed from the entered ground profile, strata (by depth below the crest, the deepest continuing indefinitely), surface loads, water table and analysis options, to within the convergence tolerance. Water pressure at a slice base is 9.81 x the depth below the water table (below the ground surface where the water table is above it), times the water factor beneath the part of the face between where the water table meets it and the toe; with no water table (or one at or below the bottom of the model) there is none. A surface is missing from the results only when no such value exists: the driving moment is not positive, the resistance is negative, or it does not cut the ground twice.",
["inputs","configurations"],"all models with heights 0.5-40 m, angles up to 90 degrees or explicit lengths, 1-8 strata, any mix of loads, water depths and analysis options, and all circles that cut the ground, both individually added and generated by the search",
"The tests compare a handful of published examples to 2-10% and never vary strata order, water, loads and options together; an error that is small or confined to one combination (layer boundary, water above ground, slice edge) passes them.",
[PS],[("Bishop iteration and ordinary-method start value",PS+": _analyse_circular_failure_bishop / _ordinary"),("strip weights",PS+": _calculate_strip_weights")],
["Slope.analyse_slope, get_min_FOS, results list","Slope.add_single_circular_plane"])
p("C02","Surface loads act exactly once, at their offset, and lie inside the model",
"A distributed load adds its pressure times the width of each slice it covers, and a line load adds its magnitude to exactly one slice, for every failure surface below it and to no other, wherever the slice edges fall. Loads sit on the crest side at their offset behind the crest edge (a distributed load of length None or 0 runs back to the model edge), and adding a load never leaves part of it outside the model. Loads that a failure surface does not pass under leave its factor of safety unchanged.",
["inputs","configurations"],"all combinations of distributed and line loads (any number, offsets, lengths, magnitudes) on any geometry, added before or after geometry changes, against all failure surfaces, including ones whose slice edges coincide with load positions",
"Tests use at most a couple of loads on fixed geometry and look only at the minimum FOS; a load lost or doubled on a few surfaces, or one clipped at the model edge, is invisible there.",
[PS],[("load contribution to slice weights",PS+": _analyse_circular_failure_*"),("load coordinates and model growth",PS+": set_udls, set_lls, _update_udl_coordinates, _update_ll_coordinates")],
["FOS of individually added circles with and without loads (phi=0 models make FOS inversely proportional to the driving moment)","plot_boundary load shapes"])
p("C03","Results are complete, sorted and self-consistent; the minimum is the minimum",
"After an analysis the results are ordered by increasing factor of safety, contain each analysed surface once, and the reported minimum factor, critical circle and end points all belong to the same, lowest entry. Every entry's factor of safety is the one obtained by analysing that circle on its own in the same model. An upper bound passed to the analysis only removes the entries above it; without one, every generated surface with a defined factor is present.",
["inputs","configurations"],"all models and analysis options, search and individually added surfaces, all upper bounds",
"Tests read the minimum of a few models; they never check the rest of the list, the link between the minimum and its circle, or the filter.",
[PS],[("filter and sort",PS+": analyse_slope"),("getters",PS+": get_min_FOS, get_min_FOS_circle, get_min_FOS_end_points")],
["results list after analyse_slope(max_fos)","get_min_FOS*"])
p("C04","Failure surfaces are geometrically valid and pass through requested points",
"Every analysed failure surface has its two end points on both its circle and the ground surface, left end first, and between them its arc lies in the ground (never materially above the surface). A surface requested by circle is analysed as exactly that circle, and those requested by entry and exit point are the requested number of distinct circles, each passing through both requested points (fewer only where a circle would leave the ground or has no factor).",
["inputs","configurations"],"all geometries, searches and user-specified circles or entry/exit points",
"Tests only check one or two intersections on fixed slopes; a degenerate or misplaced arc on unusual geometry would only show as a slightly different minimum FOS.",
[PS,UT],[("plane generation",PS+": _generate_planes, add_single_entry_exit_plane, add_single_circular_plane"),("circle/ground intersection",PS+": _get_circle_external_intersection; "+UT+": cirle_line_intersection")],
["l_c, r_c, c_x, c_y, radius of each result"])
p("C05","Searches respect analysis limits and the minimum failure distance",
"With analysis limits set, every surface examined by a search enters the ground between the two left limits and exits between the two right limits. With a minimum failure distance set, every surface examined has its entry and exit further apart than that distance. This holds for every surface in the results, including those placed next to loads and those that daylight on the face; and a minimum distance removes nothing but the surfaces that are too short.",
["inputs","configurations"],"all geometries, loads, limits (inner and outer), minimum distances and iteration counts",
"Tests set limits in one example and look at the minimum only; a few stray surfaces outside the limits do not show.",
[PS],[("entry/exit grid",PS+": _set_entry_exit_planes"),("limits",PS+": set_analysis_limits")],
["end points of every result"])
p("C06","A search covers the whole allowed entry/exit range at the requested density",
"A search examines surfaces entering at both ends of and evenly through the allowed entry range, and exiting evenly through the allowed exit range up to its far end, with at least five different radii for each pair whose arcs stay in the ground, and tries about as many surfaces as the iterations asked for. This holds for any number of loads; each load additionally gets entry points just behind its left edge. In particular the minimum found is not higher than that of the surfaces through the ends of the allowed ranges. (Parts of the ranges from which no arc can stay in the ground have no surfaces.)",
["inputs","configurations"],"all geometries, limits, iteration counts 500-100000 and any number of loads",
"Tests fix the iteration count and compare one minimum; a search that skips part of the range still returns a plausible minimum.",
[PS],[("entry/exit grid",PS+": _set_entry_exit_planes"),("radius family",PS+": _generate_planes")],
["end points and radii of all results of analyse_slope()"])
p("C07","Results depend on the final configuration, not on the order it was built in",
"Two slopes that end up with the same geometry, strata, loads, water table, options and limits give identical results and plots, whatever the order, grouping or number of the calls that got them there. This includes geometry changes made after materials, loads or the water table were set, and options changed back and forth. (Geometry or extent changes reset analysis limits, so limits count from the last such change.)",
["histories"],"all interleavings of configuration calls, including replaced geometry, repeated and superseded calls and model growth caused by deep strata or distant loads",
"Tests build each model in one fixed order; the interactions are between calls.",
[PS],[("derived levels refreshed",PS+": set_external_boundary, set_materials, set_water_table, update_water_analysis_options, update_boundary_options")],
["analyse_slope results, get_*, plot_boundary of two slopes built differently"],
[dict(name="derived levels",meaning="strata and water levels, load coordinates, automatic water factor follow from geometry",where=PS)])
p("C08","Removing strata, loads, water, limits or planes undoes adding them",
"Adding something and then removing it leaves the analysis as if it had never been added: strata (by object, equal object or depth), loads (by object or equal values), the water table, analysis limits and individually added surfaces, singly or with remove-all. Removing a load by value removes all equal ones. Removing affects nothing but what was named; naming something that is not there changes nothing. (The model's extents may stay enlarged.)",
["histories"],"all add/remove sequences, including duplicates, equal-valued but distinct objects, partial and repeated removals",
"Tests remove one of two items and check the list length.",
[PS],[("removal",PS+": remove_udls, remove_lls, remove_material, remove_water_table, remove_analysis_limits, remove_individual_planes")],
["analysis results, plot_boundary"])
p("C09","Results never outlive the model they were computed for",
"After any call that changes the model, no getter or plot presents results computed for the previous model: until the next analysis they have nothing to report, and after it they report exactly what a freshly built slope with the same configuration reports. This includes individually added surfaces, whose factors and end points follow the current model. (The list of offsets of a past dynamic analysis is a record and kept.)",
["histories"],"all histories of analyses interleaved with any model-changing call",
"Tests analyse a slope once, or once after each change in a fixed order.",
[PS],[("result reset",PS+": _reset_results called from every mutator"),("re-analysis of individual planes",PS+": analyse_slope")],
["get_min_FOS, plot_critical, plot_all_planes after each mutator"])
p("C10","Invalid input is rejected with an error and leaves the model unchanged",
"A call with an out-of-range, wrongly typed, conflicting or duplicate value for the geometry, strata, loads, water table, model extents or limits (non-positive heights, angles outside 0-90, unit weights outside 1-50, negative friction angles or water depths, disordered or out-of-model limits, duplicate strata depths, non-numeric values) raises a ValueError. After such a failed call the slope behaves exactly as if the call had not been made, including its extents and existing results.",
["inputs","histories"],"all public setters with each kind of invalid value, from any prior state",
"Tests check that a few bad constructor values raise; none looks at the state left behind.",
[PS,DV],[("validation",DV),("validate before mutate",PS+": set_materials, set_external_boundary, set_analysis_limits, update_boundary_options")],
["exception type; results, plots and extents before and after"])
p("C11","Slopes are independent of one another, also when analysed concurrently",
"What one slope reports and draws (results, levels, colours) depends only on its own configuration, never on other slopes created, changed or analysed in the same process. This holds when slopes share the same material and load objects (used one after another, without dynamic analysis), and when slopes with their own objects are analysed in parallel threads.",
["schedules","histories"],"all interleavings of operations on several slopes in one process, sequential with shared objects and concurrent with separate objects",
"Tests use one slope at a time in one thread.",
[PS],[("derived levels refreshed from own geometry",PS+": analyse_slope, plot_boundary"),("no module-level mutable state",PS)],
["results of each slope vs. the same slope alone in a fresh process order"])
p("C12","Analysis is repeatable, and analysing, reading and plotting change nothing",
"Analysing the same slope again, or an identically built one, gives identical results. Reading results and drawing plots (in any order, any number of times, with any options) changes neither the model nor the results, and returns the same thing each time.",
["histories","inputs"],"all models and all sequences of analyses, getters and plots",
"Tests call each getter and plot once.",
[PS],[("pure getters/plots",PS+": get_*, plot_*")],["results and figures before/after"])
p("C13","Stronger ground is never less safe; more load or water is never safer",
"For a given failure surface, raising the cohesion of any stratum, or the friction angle of a stratum without cohesion in a model without water, never lowers its factor of safety; raising the water table at full water pressure (water factor 1), or the water factor at a given water table, never raises it. Adding a surface load over a surface whose ground has no friction never raises the factor of safety where the load drives failure. A cohesion increase alone over frictionless ground scales the factor in proportion.",
["inputs"],"all models and failure surfaces (well-conditioned: positive m-alpha), all increments",
"Tests compare fixed examples; a sign or dependency error in one term for some input combinations is not sampled.",
[PS],[("Bishop equation terms",PS+": _analyse_circular_failure_bishop")],["FOS of the same circle under varied parameters"])
p("C14","Ground geometry and model extents follow from height, angle and length",
"The drawn ground has a level crest, a straight face with the requested height and length (or angle) and a level toe, centred in a model at least five slope lengths, four heights and the minimum length long and at least three heights, 2.5 slope lengths, the minimum height and the deepest stratum high. The crest and toe coordinates reported match it, and asking for the ground elevation at x or the position on the face at elevation y gives points on that ground, each the inverse of the other.",
["inputs","configurations"],"all heights, angles in (0, 90], lengths (explicit length overrides angle; zero length is a vertical face) and minimum extents",
"Tests check two geometries.",
[PS],[("boundary",PS+": set_external_boundary"),("intersections",PS+": get_external_x_intersection, get_external_y_intersection")],
["get_top_coordinates, get_bottom_coordinates, get_external_*_intersection, plot_boundary outline"])
p("C15","The boundary plot depicts the model: strata, loads, water and limits",
"The drawn strata together tile the ground exactly once, each at its own depths, with its own properties in its label and material table row and its own colour (the user's if valid, otherwise an automatic one). Each load is drawn at the position it acts with its magnitude, the water table at its level meeting the face where the model has it, and the limit markers at the limits on the ground. It can be drawn for every model that can be built.",
["inputs","histories"],"all models, including loads and strata added, removed and re-added, any valid colours and names",
"Tests only check that plotting does not raise for a simple model.",
[PS,UT],[("plot",PS+": plot_boundary, _plot_udl, _plot_ll, _plot_water, _plot_limits, _plot_material_table")],["plotly figure data, shapes, annotations"])
p("C16","Failure plane plots show exactly the analysed surfaces with their factors",
"The critical plot shows the lowest surface on its own circle between its end points and is annotated with its factor, centre and radius. The all-planes plot shows every analysed surface below the given maximum (all of them when there is none) and no other, each labelled with its factor to three decimals and coloured by the colour scale for its factor, the most critical drawn last. Both can be drawn for every completed analysis, however large or small the factors.",
["inputs","configurations"],"all analyses with at least one result, factors from 0 upward, any display maximum",
"Tests only check that plotting does not raise.",
[PS,UT],[("plots",PS+": plot_critical, plot_all_planes, _plot_failure_plane"),("colour scale",UT+": create_fos_color_dictionary")],["plotly figure traces"])
p("C17","Dynamic analysis moves only dynamic loads and reports true offset/factor pairs",
"A dynamic analysis changes nothing but the offsets of loads marked dynamic, and keeps every offset it tries between the crest edge and the furthest at which the loads still fit on the crest. Every offset/factor pair it reports or prints is what a normal analysis gives with the dynamic loads at that offset, and afterwards the loads and results are those of one reported offset. It returns 0 when the factor with loads at the crest already meets the target, 1 when even the furthest offset misses it, and otherwise refines within the bracket for a bounded number of steps, stopping early only at an offset that meets the target (to three decimals).",
["inputs","configurations"],"all models with dynamic and fixed loads (any mix of types and lengths, including continuous), limits, individual surfaces and all targets",
"Tests run one dynamic case.",
[PS],[("dynamic loop",PS+": analyse_dynamic, _set_dynamic_offset")],["get_dynamic_results, return value, load offsets, results afterwards"])
p("C18","The web page analyses exactly what the form says",
"Submitting the form gives the same failure surfaces and the same model plot as the library gives for the entered slope, materials, loads, water table, limits and options (surfaces up to a factor of 5 for a normal analysis, or all of them when none is that low; a dynamic analysis with the entered target when chosen). Nothing entered is ignored, swapped or rounded, switched-off water and limits have no effect, and rows left as first shown mean the values shown.",
["inputs"],"all valid form submissions with any number of material and load rows",
"No test touches the web application.",
[V,"slope/forms.py","slope/models.py"],[("form to model",V+": create_slope"),("response",V+": index")],["plot and search JSON embedded in the response"])
p("C19","Web sessions are isolated, remember the last analysis and reset cleanly",
"Each visitor sees only their own inputs and results, however requests of different visitors interleave. Reloading the page after a valid submission shows the same form values, surfaces and plot; the PDF report contains that same model and exactly its surfaces below the requested factor; reset (and an invalid submission) returns to the default model.",
["histories","schedules"],"all interleavings of page loads, valid and invalid submissions, PDF requests and resets by several visitors",
"No test touches the web application.",
[V],[("session storage",V+": index, reset, pdf")],["responses per client over a request history"])
p("C20","The web application never fails with a server error",
"Every request - any form contents, missing or malformed fields, extreme but finite engineering values, any URL argument, with or without an existing session - is answered with a page, a report or a redirect, never a server error. Input that cannot be analysed leads back to the default page.",
["inputs","histories"],"all request sequences from a browser or script, form values being arbitrary strings or numbers up to engineering magnitudes",
"No test touches the web application.",
[V,"slope/forms.py"],[("validation and fallback",V+": index, pdf, reset")],["HTTP status of every response"])
p("C21","Options and inputs are normalised exactly as documented",
"Slice counts are held to 10-500 and iteration counts to 500-100000, omitted options keep their current value, and the manual water factor is held to 0-1. A tighter tolerance brings the factor closer to the exact Bishop solution and the iteration cap bounds the refinement steps. Negative cohesions, strata depths, load magnitudes, offsets and lengths act as their absolute values, zero-magnitude loads do nothing, unusable colours fall back to a usable default, and naming a length overrides an angle.",
["inputs","configurations"],"all option values in and outside their ranges, any sequence of partial updates",
"Tests check one or two clamps via internals.",
[PS,DV],[("clamps",PS+": update_analysis_options, update_water_analysis_options"),("normalisation",PS+": Material, Udl, LineLoad __post_init__")],["FOS under equivalent settings, plots"])
p("C22","Equivalent descriptions of the same ground and loading give the same result",
"Splitting a stratum into sub-layers of the same properties, a distributed load into abutting or superposed parts, or a line load into parts at the same place, and listing strata or loads in any order, leaves the factor of safety of every surface unchanged. Scaling all lengths, and with them cohesion and loads consistently (unit weights fixed, no water or water scaled alike), leaves it unchanged too. Material below the deepest entered stratum is the deepest stratum, and how far the model extends around a surface (its minimum length and height) does not matter to it.",
["inputs"],"all models, all splits, permutations and scale factors, all failure surfaces",
"Tests have no pairs of equivalent models.",
[PS],[("strip weights and load overlap",PS+": _calculate_strip_weights, _analyse_circular_failure_bishop"),("sorting by depth",PS+": set_materials")],["FOS of the same circle in both models"])
p("C23","The page in the browser submits what is on it and draws the analysed surfaces",
"Used in a browser, the page submits exactly the values and rows the visitor sees, in order, however many rows were added or removed (at least one of each kind stays), and enables Analyse after any change to them. It shows exactly the inputs that apply (angle or length, water depth, limits), and each slider's value. Its plot shows every analysed surface below the display limit and no other, along its arc, labelled with its factor to three decimals and coloured by the colour scale, most critical on top, after any sequence of slider changes and window resizes, on wide and narrow screens; narrow screens list the strata as analysed. The report link asks for the display limit and is withdrawn while inputs have changed.",
["inputs","histories"],"all pages (default or any submission's answer), all sequences of edits, row additions and deletions, slider changes and resizes, all window widths",
"The tests run no script of the page at all.",
["static/slope","slope/templates/slope/index.html"],[("rows and their numbering","static/slope/add_rows.js"),("Analyse button and withdrawn report","static/slope/button_control.js, static/slope/update_pdf_link.js"),("drawing surfaces below the limit, narrow screens","static/slope/charting.js"),("inputs that apply","static/slope/hide_form.js"),("slider values","static/slope/slider_values.js")],["submitted form data","plot, table and inputs shown in the browser"])
p("C24","A visitor's last analysis survives crashes, restarts and other server processes",
"Served by any number of server processes, what a visitor last analysed is what every later page and report shows, whichever process answers and however often processes are stopped, reloaded, restarted or killed in between. A submission during which the server ends, at any moment, leaves either the previous or the new result, and that complete: entered values, surfaces and plot belong together. Once a visitor has been shown a result it is not lost. Of simultaneous submissions from one browser one remains, whole. The downloaded report is a one-page PDF file in which exactly the surfaces below the limit are drawn, in order and to scale.",
["crash_points","schedules","histories"],"all histories of requests by several visitors, all numbers of server processes, all moments at which processes end",
"No test starts a server, let alone ends one.",
["engineering/settings.py","engineering/wsgi.py",V],[("where results are kept","engineering/settings.py: SECRET_KEY, sessions, DATABASES"),("storing the three parts of a result together",V+": index"),("report from the stored result",V+": pdf")],["HTTP responses and PDF files of a server that is killed and restarted"])
import os
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w").write("".join(json.dumps(d,ensure_ascii=False)+"\n" for d in P))
print(len(P))
