-------------------------------- MODULE Cli --------------------------------
(* The command line: what every command does, as a call of the library.         *)
(*                                                                              *)
(* A command is a record of the words that invoke it, its fixed words, the       *)
(* library function with its positional arguments, and its options in order.     *)
(* An option sets a keyword of the library call: `def` is its value (as JSON) if  *)
(* the option is not given, "" if there is none, and `give` are ways to give it: *)
(* pairs of the words on the command line and the value they stand for.          *)
(* A later option in the table takes precedence over earlier ones.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

O(key, def, give) == [key |-> key, def |-> def, give |-> give]
W1(a, v) == <<<<a>>, v>>
W2(a, b, v) == <<<<a, b>>, v>>
W3(a, b, c, v) == <<<<a, b, c>>, v>>

Begin == O("begin", "1", {W2("-b", "0", "0"), W2("-b", "2", "2"), W2("--begin", "3", "3")})
End == O("end", "Infinity", {W2("-e", "2", "2"), W2("--end", "3", "3"), W2("-e", "1", "1"), W2("-e", "0", "0")})
Ext(e) == O("ext", e, {W2("--ext", ".map", "\".map\"")})
Xlim == O("xlim", "[null, null]", {W3("--xlim", "0.6", "4", "[0.6, 4.0]"), W3("--xlim", "0.5625", "3.34375", "[0.5625, 3.34375]"), W3("--xlim", "None", "3.5", "[null, 3.5]"), W3("--xlim", "1", "none", "[1.0, null]"), W3("--xlim", "0", "3", "[0.0, 3.0]"), W3("--xlim", "None", "0", "[null, 0.0]")})
Ylim == O("ylim", "[null, null]", {W3("--ylim", "0.2", "2", "[0.2, 2.0]"), W3("--ylim", "0.0625", "1.84375", "[0.0625, 1.84375]"), W3("--ylim", "None", "1.5", "[null, 1.5]"), W3("--ylim", "0.6", "none", "[0.6, null]"), W3("--ylim", "0", "1", "[0.0, 1.0]"), W3("--ylim", "None", "0", "[null, 0.0]")})
Cutoff(d) == O("cutoff", d, {W2("-co", "2", "2.0"), W2("--cutoff", "6.5", "6.5"), W2("-co", "0", "0.0")})
Radius == O("cutoff_radius", "1.0", {W2("-cr", "0.6", "0.6"), W2("--cutoff_radius", "1.5", "1.5"), W2("-cr", "0", "0.0")})
Bins == O("cutoff_bins", "1", {W2("-cb", "0", "0"), W2("--cutoff_bins", "3", "3")})
Floor == O("floor", "null", {W2("--floor", "0.75", "0.75"), W2("--floor", "1.25", "1.25"), W2("--floor", "0", "0.0")})
Rolling == O("rolling", "false", {W1("--rolling", "true"), W1("--norolling", "false")})
Recenter == O("recenter", "true", {W1("--norecenter", "false"), W1("--recenter", "true")})
Text(key, flag, d) == O(key, d, {W2(flag, "some text", "\"some text\"")})
Titles(t, x, y) == <<Text("title", "--title", t), Text("xlabel", "--xlabel", x), Text("ylabel", "--ylabel", y)>>
Show(d) == O("show", d, {W1("--show", "true"), W1("--noshow", "false")})
Process == O("sum", "false", {W2("--process", "sum", "true"), W2("--process", "mean", "false")})
Dt(key) == O(key, "1.0", {W2("-dt", "0", "0.0"), W2("-dt", "2.5", "2.5"), W2("--delta_t", "0.5", "0.5")})
FigFile == O("save_fig", "null", {W2("-o", "out/fig.png", "\"out/fig.png\""), W2("--save_fig", "out/f2.png", "\"out/f2.png\"")})
Colours == <<O("cbarlabel", "null", {W2("--cbarlabel", "mass", "\"mass\"")}),
             O("cbarticks", "null", {W2("--cbarticks", "1 2.5", "[1.0, 2.5]"), W2("--cbarticks", "0 3.28125", "[0.0, 3.28125]")}),
             O("cbarticklabels", "null", {W2("--cbarticklabels", "a b", "[\"a\", \"b\"]")}),
             O("colormap", "\"viridis\"", {W2("-cmap", "plasma", "\"plasma\""), W2("--colourmap", "jet", "\"jet\"")}),
             O("transparent", "false", {W1("--transparent", "true"), W1("--notransparent", "false")})>>
Dims == O("dims", "null", {W3("--dims", "640", "480", "[640.0, 480.0]")})
Dpi == O("dpi", "150", {W2("--dpi", "80", "80")})
Vlim == O("vlim", "[null, null]", {W3("--vlim", "1", "6", "[1.0, 6.0]"), W3("--vlim", "1.28125", "4.71875", "[1.28125, 4.71875]"), W3("--vlim", "None", "4", "[null, 4.0]"), W3("--vlim", "0", "5", "[0.0, 5.0]")})
MapFiles == <<"m_00001.dat", "m_00003.dat">>

Commands == <<
  [name |-> "average", words |-> <<"average">>, tail |-> <<"m_", "out/o_", "2">>,
   fn |-> "strata.average:average", args |-> "[\"m_\", \"out/o_\", 2]", fixed |-> <<>>, print |-> "",
   options |-> <<O("combine", "[null, null]", {W3("--combine", "2", "2", "[2, 2]"), W3("--combine", "3", "none", "[3, null]"), W3("--combine", "None", "2", "[null, 2]")}),
                 O("supersample", "null", {W2("--supersample", "2", "2"), W2("--supersample", "None", "null")}),
                 O("recenter", "null", {W2("--recenter", "left", "\"left\""), W2("--recenter", "right", "\"right\""), W2("--recenter", "com", "\"com\""), W2("--recenter", "none", "null")}),
                 Rolling, Floor, Cutoff("0.0"), Bins, Radius, Xlim, Ylim, Begin, End, Ext("\".dat\"")>>],
  [name |-> "convert", words |-> <<"convert">>, tail |-> <<"m_", "out/o_">>,
   fn |-> "strata.convert:convert", args |-> "[\"m_\", \"out/o_\"]", fixed |-> <<>>, print |-> "",
   options |-> <<O("ftype", "\"gmx\"", {W2("--ftype", "simple", "\"simple\""), W2("--ftype", "simple_plain", "\"simple_plain\""), W2("--ftype", "gmx", "\"gmx\"")}),
                 Begin, End, Ext("\".dat\"")>>],
  [name |-> "spreading collect", words |-> <<"spreading", "collect">>, tail |-> <<"m_", "0.25">>,
   fn |-> "strata.spreading.collect:collect", args |-> "[\"m_\"]", fixed |-> <<O("floor", "0.25", {})>>, print |-> "spreading",
   options |-> <<O("save", "\"spread.xvg\"", {W2("-o", "out/s.xvg", "\"out/s.xvg\""), W2("--output", "s2.xvg", "\"s2.xvg\"")}),
                 O("save", "", {W1("--nooutput", "null")}),
                 Dt("dt"), Cutoff("null"), Radius, Bins,
                 O("t0", "0.0", {W2("-t0", "10", "10.0"), W2("-t0", "0", "0.0"), W2("--time_init", "-2.5", "-2.5")}),
                 Begin, End, Ext("\".dat\""),
                 O("*print", "false", {W1("-v", "true"), W1("--verbose", "true")})>>],
  [name |-> "spreading view", words |-> <<"spreading", "view">>, tail |-> <<"s1.xvg", "s2.xvg">>,
   fn |-> "strata.spreading.view:view_spreading", args |-> "[[\"s1.xvg\", \"s2.xvg\"]]", fixed |-> <<>>, print |-> "",
   options |-> <<O("tau", "1.0", {W2("-t", "2", "2.0"), W2("--tau", "0.5", "0.5")}), O("R", "1.0", {W2("-r", "2", "2.0"), W2("--radius", "0.5", "0.5")}),
                 O("sync_radius", "null", {W2("-rs", "2", "2.0"), W2("--sync_radius", "1", "1.0"), W2("-rs", "0", "0.0")}),
                 FigFile, O("save_xvg", "null", {W2("-x", "out/s.xvg", "\"out/s.xvg\""), W2("--save_xvg", "s.xvg", "\"s.xvg\"")}),
                 Show("true"), O("loglog", "false", {W1("--loglog", "true")}), Xlim, Ylim>> \o Titles("\"Droplet spreading\"", "\"Time (ps)\"", "\"Radius (nm)\"")],
  [name |-> "spreading fit", words |-> <<"spreading", "fit">>, tail |-> <<"s1.xvg", "s2.xvg">>,
   fn |-> "strata.spreading.fit:fit_spreading_data", args |-> "[[\"s1.xvg\", \"s2.xvg\"]]", fixed |-> <<>>, print |-> "fit",
   options |-> <<O("lims", "[null, null]", {W3("--lims", "1", "3", "[1.0, 3.0]"), W3("--lims", "0.75", "2.25", "[0.75, 2.25]"), W3("--lims", "None", "3", "[null, 3.0]"), W3("--lims", "0", "2", "[0.0, 2.0]")}),
                 O("out_lims", "[null, null]", {W3("--out_lims", "2", "none", "[2.0, null]"), W3("--out_lims", "0.5", "3", "[0.5, 3.0]"), W3("--out_lims", "0", "2", "[0.0, 2.0]"), W3("--out_lims", "None", "0", "[null, 0.0]")}),
                 FigFile, O("save_xvg", "null", {W2("-x", "out/s.xvg", "\"out/s.xvg\""), W2("--save_xvg", "s.xvg", "\"s.xvg\"")}),
                 O("*print", "true", {W1("--noprint", "false"), W1("--print", "true")}),
                 Show("true"), O("loglog", "false", {W1("--loglog", "true")}), O("legend", "true", {W1("--nolegend", "false"), W1("--legend", "true")}),
                 Xlim, Ylim>> \o Titles("\"Droplet spreading with fit\"", "\"Time (ps)\"", "\"Radius (nm)\"")],
  [name |-> "interface collect", words |-> <<"interface", "collect">>, tail |-> <<"m_", "out/i_">>,
   fn |-> "strata.interface.collect:collect_interfaces", args |-> "[\"m_\", \"out/i_\"]", fixed |-> <<>>, print |-> "",
   options |-> <<O("recenter", "\"zero\"", {W2("--recenter", "off", "null"), W2("--recenter", "com", "\"com\""), W2("--recenter", "zero", "\"zero\"")}),
                 Cutoff("null"), Radius, Bins, O("ylims", Ylim.def, Ylim.give), Begin, End, Ext("\".dat\"")>>],
  [name |-> "interface view", words |-> <<"interface", "view">>, tail |-> <<"i_">>,
   fn |-> "strata.interface.view:view_interfaces", args |-> "[\"i_\"]", fixed |-> <<>>, print |-> "",
   options |-> <<O("average", "1", {W2("-av", "2", "2"), W2("--average", "3", "3")}),
                 O("save_fig", "null", {W2("-o", "out/f_", "\"out/f_\""), W2("--save_fig", "g", "\"g\"")}),
                 O("save_xvg", "\"\"", {W2("-x", "out/x_", "\"out/x_\""), W2("--save_xvg", "y", "\"y\"")}),
                 Show("true"), Xlim, Ylim>> \o Titles("\"Droplet interface\"", "\"x (nm)\"", "\"y (nm)\"")
              \o <<Begin, End, Ext("\".xvg\""), O("extfig", "\".png\"", {W2("--extfig", ".svg", "\".svg\"")})>>],
  [name |-> "interface sample area", words |-> <<"interface", "sample">>, tail |-> <<"i_", "area">>,
   fn |-> "strata.interface.sample:sample_interfaces", args |-> "[\"i_\", \"area\"]", fixed |-> <<>>, print |-> "",
   options |-> <<FigFile, O("save_xvg", "\"\"", {W2("-x", "out/x.xvg", "\"out/x.xvg\""), W2("--save_xvg", "y.xvg", "\"y.xvg\"")}),
                 Dt("delta_t"), Show("true"), Xlim, Ylim>> \o Titles("\"Droplet interface\"", "\"t (ps)\"", "\"A (nm^2)\"")
              \o <<Begin, End, Ext("\".xvg\""), O("extfig", "\".png\"", {W2("--extfig", ".svg", "\".svg\"")})>>],
  [name |-> "interface sample length", words |-> <<"interface", "sample">>, tail |-> <<"i_", "length">>,
   fn |-> "strata.interface.sample:sample_interfaces", args |-> "[\"i_\", \"length\"]", fixed |-> <<>>, print |-> "",
   options |-> <<FigFile, O("save_xvg", "\"\"", {W2("-x", "out/x.xvg", "\"out/x.xvg\""), W2("--save_xvg", "y.xvg", "\"y.xvg\"")}),
                 Dt("delta_t"), Show("true"), Xlim, Ylim>> \o Titles("\"Droplet interface\"", "\"t (ps)\"", "\"L (nm)\"")
              \o <<Begin, End, Ext("\".xvg\""), O("extfig", "\".png\"", {W2("--extfig", ".svg", "\".svg\"")})>>],
  [name |-> "interface angle", words |-> <<"interface", "angle">>, tail |-> <<"i_">>,
   fn |-> "strata.interface.angle:interface_contact_angle", args |-> "[\"i_\"]", fixed |-> <<>>, print |-> "angle",
   options |-> <<O("fit", "false", {W1("--fit", "true"), W1("--nofit", "false")}),
                 O("height", "null", {W2("-h", "1", "1.0"), W2("--height", "0.5", "0.5"), W2("-h", "None", "null")}),
                 Dt("delta_t"), FigFile, O("save_xvg", "null", {W2("-x", "out/a.xvg", "\"out/a.xvg\""), W2("--save_xvg", "a.xvg", "\"a.xvg\"")}),
                 Show("false"), Xlim, Ylim>> \o Titles("\"Contact angles\"", "\"t (ps)\"", "\"angle (deg.)\"") \o <<Begin, End, Ext("\".xvg\"")>>],
  [name |-> "contact-line collect", words |-> <<"contact-line", "collect">>, tail |-> <<"m_", "out/c_">>,
   fn |-> "strata.contact_line_analysis:extract_contact_line_bins", args |-> "[\"m_\", \"out/c_\"]", fixed |-> <<>>, print |-> "",
   options |-> <<O("average", "1", {W2("-av", "2", "2"), W2("--average", "3", "3")}), Rolling, Recenter,
                 O("fuse", "false", {W1("--fuse", "true"), W1("--nofuse", "false")}), Floor,
                 O("extract_area", "[1.0, 1.0]", {W3("-ea", "0.6", "2", "[0.6, 2.0]"), W3("--extract_area", "0", "0", "[0.0, 0.0]")}),
                 O("extract_height", "0.0", {W2("-eh", "0.75", "0.75"), W2("--extract_height", "1", "1.0"), W2("-eh", "0", "0.0")}),
                 Cutoff("null"), Radius, Bins, Begin, End, Ext("\".dat\"")>>],
  [name |-> "contact-line sample", words |-> <<"contact-line", "sample">>, tail |-> <<"m_", "M", "U">>,
   fn |-> "strata.contact_line_analysis:sample_contact_line_edges", args |-> "[\"m_\", [\"M\", \"U\"]]", fixed |-> <<>>, print |-> "",
   options |-> <<O("average", "1", {W2("-av", "2", "2"), W2("--average", "3", "3")}), Rolling, Recenter, Floor,
                 O("extract_area", "[0.0, 0.0]", {W3("-ea", "0.6", "2", "[0.6, 2.0]"), W3("--extract_area", "1", "1", "[1.0, 1.0]")}),
                 O("extract_height", "0.0", {W2("-eh", "0.75", "0.75"), W2("--extract_height", "1", "1.0"), W2("-eh", "0", "0.0")}),
                 Dt("dt"), Process, Cutoff("null"), Radius, Bins,
                 O("save", "null", {W2("--save", "out/c.xvg", "\"out/c.xvg\"")}), Begin, End, Ext("\".dat\"")>>],
  [name |-> "contact-line sample more", words |-> <<"contact-line", "sample">>, tail |-> <<"m_", "T", "M", "V", "N", "U", "T">>,
   fn |-> "strata.contact_line_analysis:sample_contact_line_edges", args |-> "[\"m_\", [\"T\", \"M\", \"V\", \"N\", \"U\", \"T\"]]", fixed |-> <<>>, print |-> "",
   options |-> <<Process, Rolling, Radius, O("average", "1", {W2("-av", "2", "2")}), O("extract_area", "[0.0, 0.0]", {W3("-ea", "0.6", "2", "[0.6, 2.0]")}),
                 O("save", "null", {W2("--save", "out/c.xvg", "\"out/c.xvg\"")})>>],
  [name |-> "view contour", words |-> <<"view", "contour">>, tail |-> MapFiles,
   fn |-> "strata.view_flowmap:view_flowmap_2d", args |-> "[\"m_00001.dat\", \"m_00003.dat\"]", fixed |-> <<O("type", "\"contour\"", {})>>, print |-> "",
   options |-> <<FigFile, O("label", "\"M\"", {W2("-l", "T", "\"T\""), W2("--label", "flow", "\"flow\""), W2("-l", "N", "\"N\""), W2("-l", "U", "\"U\""), W2("-l", "V", "\"V\"")}),
                 O("num_contours", "10", {W2("-n", "4", "4"), W2("--num_contours", "3", "3")}),
                 O("contour_levels", "null", {W2("-lv", "1.5 4", "[1.5, 4.0]"), W2("-lv", "0 1.28125  5", "[0.0, 1.28125, 5.0]"), W2("--levels", "2.5", "[2.5]")}),
                 O("contour_colours", "null", {W2("-c", "red blue", "[\"red\", \"blue\"]"), W2("-c", " red  blue ", "[\"red\", \"blue\"]"), W2("--colours", "k", "[\"k\"]")}),
                 O("filled", "false", {W1("--filled", "true")}), Vlim,
                 O("colorbar", "false", {W1("--nocolourbar", "false")}),
                 Show("true"), O("noaxis", "false", {W2("--noaxis", "true", "true"), W2("--noaxis", "false", "false")}), Dims, Xlim, Ylim>> \o Colours \o Titles("\"Droplet contours\"", "\"x (nm)\"", "\"y (nm)\"")],
  [name |-> "view height", words |-> <<"view", "height">>, tail |-> MapFiles,
   fn |-> "strata.view_flowmap:view_flowmap_2d", args |-> "[\"m_00001.dat\", \"m_00003.dat\"]", fixed |-> <<O("type", "\"height\"", {})>>, print |-> "",
   options |-> <<FigFile, O("label", "\"M\"", {W2("-l", "T", "\"T\""), W2("--label", "flow", "\"flow\""), W2("-l", "N", "\"N\""), W2("-l", "U", "\"U\""), W2("-l", "V", "\"V\""), W2("-l", "visc_diss", "\"visc_diss\""), W2("-l", "evaporation", "\"evaporation\"")}),
                 O("clim", "[null, null]", {W3("--clim", "2", "7", "[2.0, 7.0]"), W3("--clim", "None", "5", "[null, 5.0]"), W3("--clim", "0", "4", "[0.0, 4.0]"), W3("--clim", "None", "0", "[null, 0.0]")}), Vlim,
                 O("cutoff_label", "null", {W2("-cl", "M", "\"M\""), W2("--cutoff_label", "T", "\"T\"")}),
                 O("cutoff", "null", {W2("-co", "3", "3.0"), W2("--cutoff", "6.5", "6.5"), W2("-co", "0", "0.0")}),
                 O("colorbar", "true", {W1("--nocolourbar", "false"), W1("--colourbar", "true")}),
                 Show("true"), O("noaxis", "false", {W2("--noaxis", "true", "true"), W2("--noaxis", "false", "false")}), O("noaxis", "", {W1("--nodrawaxes", "true")}), Dpi, Dims, Xlim, Ylim>>
              \o Colours \o Titles("\"Droplet height map\"", "\"x (nm)\"", "\"y (nm)\"")],
  [name |-> "view flow", words |-> <<"view", "flow">>, tail |-> MapFiles,
   fn |-> "strata.view_flowmap:view_flowfields", args |-> "[\"m_00001.dat\", \"m_00003.dat\"]", fixed |-> <<O("cutoff_label", "\"M\"", {})>>, print |-> "",
   options |-> <<FigFile, O("cutoff", "null", {W2("-co", "3", "3.0"), W2("--cutoff", "6.5", "6.5"), W2("-co", "0", "0.0")}),
                 O("colour", "\"T\"", {W2("-cl", c, "\"" \o c \o "\"") : c \in {"M", "N", "U", "V", "None", "flow", "visc", "radial", "evaporation"}}),
                 O("scale", "1.0", {W2("--scale", "20", "20.0")}), O("width", "0.0015", {W2("--width", "0.01", "0.01")}),
                 O("pivot", "\"middle\"", {W2("--pivot", "tip", "\"tip\""), W2("--pivot", "tail", "\"tail\"")}),
                 O("streamlines", "false", {W1("--streamlines", "true"), W1("--nostreamlines", "false")}), Vlim,
                 O("colorbar", "false", {W1("--colourbar", "true")}),
                 Show("true"), O("noaxis", "false", {W2("--noaxis", "true", "true"), W2("--noaxis", "false", "false")}), Dpi, Dims, Xlim, Ylim>>
              \o Colours \o Titles("\"Droplet height map\"", "\"x (nm)\"", "\"y (nm)\"")],
  [name |-> "sample", words |-> <<"sample">>, tail |-> <<"m_", "M", "T">>,
   fn |-> "strata.sample_average:sample_average_files", args |-> "[\"m_\", [\"M\", \"T\"]]", fixed |-> <<>>, print |-> "",
   options |-> <<O("output", "\"sample.xvg\"", {W2("-o", "out/s.xvg", "\"out/s.xvg\""), W2("--output", "s2.xvg", "\"s2.xvg\"")}),
                 Dt("dt"), Process, O("cutoff", "null", {W2("-co", "3", "3.0"), W2("--cutoff", "6.5", "6.5"), W2("-co", "0", "0.0")}),
                 O("cutoff_label", "null", {W2("-cl", "M", "\"M\""), W2("--cutoff_label", "T", "\"T\"")}),
                 O("slip_floor", "0.0", {W2("-fl", "1", "1.0")}),
                 O("verbose", "true", {W1("--noshow", "false"), W1("--show", "true")}), Xlim, Ylim, Begin, End, Ext("\".dat\"")>>],
  [name |-> "sample more", words |-> <<"sample">>, tail |-> <<"m_", "V", "inertial_energy", "M", "N", "flow_angle", "T">>,
   fn |-> "strata.sample_average:sample_average_files", args |-> "[\"m_\", [\"V\", \"inertial_energy\", \"M\", \"N\", \"flow_angle\", \"T\"]]", fixed |-> <<>>, print |-> "",
   options |-> <<O("output", "\"sample.xvg\"", {W2("-o", "out/s.xvg", "\"out/s.xvg\"")}), Process, Dt("dt"),
                 O("cutoff", "null", {W2("-co", "3", "3.0")}), O("cutoff_label", "null", {W2("-cl", "M", "\"M\"")}), Xlim, Ylim>>],
  [name |-> "sample slip_length", words |-> <<"sample">>, tail |-> <<"m_", "slip_length", "flow_angle">>,
   fn |-> "strata.sample_average:sample_average_files", args |-> "[\"m_\", [\"slip_length\", \"flow_angle\"]]", fixed |-> <<>>, print |-> "",
   options |-> <<O("output", "\"sample.xvg\"", {W2("-o", "out/s.xvg", "\"out/s.xvg\"")}), Process,
                 O("cutoff", "null", {W2("-co", "3", "3.0")}), O("cutoff_label", "null", {W2("-cl", "M", "\"M\"")}),
                 O("slip_floor", "0.0", {W2("-fl", "1", "1.0"), W2("--floor", "0.5", "0.5")})>>]
  >>

(* The value of an option given in way w, or not at all (w = <<>>) *)
ValueOf(o, w) == IF w = <<>> THEN o.def ELSE w[2]
WordsOf(w) == IF w = <<>> THEN <<>> ELSE w[1]

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

(* given: the way in which each option is given.  perm: the order of the words.  *)
Argv(c, given, perm) == c.words \o Flat([q \in DOMAIN perm |-> WordsOf(given[perm[q]])]) \o c.tail

(* Keywords of the library call, later ones first *)
Pairs(c, given) == Reverse([q \in DOMAIN c.fixed |-> <<c.fixed[q].key, c.fixed[q].def>>]
                        \o [q \in DOMAIN c.options |-> <<c.options[q].key, ValueOf(c.options[q], given[q])>>])
Keywords(c, given) ==
    LET P == SelectSeq(Pairs(c, given), LAMBDA p : p[2] # "")
    IN SelectSeq([q \in DOMAIN P |-> IF \E r \in 1..(q-1) : P[r][1] = P[q][1] THEN <<"", "">> ELSE P[q]], LAMBDA p : p[1] # "")

(* Without fit and height there is nothing to do *)
Works(c, given) ==
    c.name = "interface angle" =>
      LET K == {Keywords(c, given)[q] : q \in DOMAIN Keywords(c, given)} IN <<"fit", "true">> \in K \/ <<"height", "null">> \notin K
=============================================================================
