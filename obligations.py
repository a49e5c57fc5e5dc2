"""The properties, and the obligations that decide them (single source for
properties.jsonl and MANIFEST.json, see gen.py)."""

RE = "refellips/"
MODEL, DATA, DISP, STRUCT, OBJ = (RE + x for x in (
    "reflect_modelSE.py", "dataSE.py", "dispersion.py", "structureSE.py", "objectiveSE.py"))
PLOT = "tools/plottools.py"


def O(spec, names):
    return [(spec, n) for n in names.split()]


PROPS = {}


def prop(pid, title, statement, over, text, why, files, mech, obligations, rule, observe=None, rules=(), assumes=()):
    PROPS[pid] = dict(
        title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
        obligations=obligations, rule=rule, observe=observe or [], rules=list(rules), assumes=list(assumes))


prop(
    "C01", "A model evaluation is row-local, complete and independent of history",
    "Evaluating a model on an array of (wavelength, angle of incidence) rows gives, for every row and in the order of the rows, "
    "the psi and delta of exactly that row's wavelength and angle with the sample's stack at that wavelength. The values depend on nothing else: "
    "not on which other rows are evaluated with it, on their order or repetitions, on whether the array holds integers or floats, nor on what the same model was evaluated on before. "
    "Parameter values handed to a call are assigned first (delta offset, then the sample's parameters).",
    ["inputs", "histories"],
    "every array of wavelengths and angles (any order, duplicates, any length, integer or float), every sample, every earlier sequence of evaluations, both delta conventions",
    "The tests evaluate a handful of sorted spectra with one structure and compare with stored files; no test permutes, repeats or mixes rows, or evaluates the same model twice at different wavelengths.",
    [MODEL, STRUCT], [("ReflectModelSE.__call__/model", MODEL + ": group rows by wavelength, set the structure's wavelength, scatter results through a boolean mask")],
    O("model.py", "rows rows_int history history_par history_sample withp swapped_p mpars mreject mdefault mnumber"),
    "value graph of ReflectModelSE(...)(rows) on a symbolic array, structure and parameters equals the graph of the per-row definition; input arrays and parameters end unchanged",
    ["ReflectModelSE.__call__", "ReflectModelSE.model"])

prop(
    "C02", "Fresnel coefficients and coherent transfer-matrix amplitudes",
    "For every stack (complex indices, thicknesses), set of angles and wavelength, the reflected and transmitted s and p amplitudes are those of the coherent transfer-matrix recursion: "
    "Snell's law in every layer, Fresnel coefficients at every interface, one propagation matrix per inner layer, applied in the order of the layers, with the outermost two layers semi-infinite. "
    "The interface functions are the Fresnel coefficients for every pair of indices and angles.",
    ["inputs"],
    "all stacks of any number of layers, complex indices, all angles (vectorised), all wavelengths",
    "The tests compare a few stacks at a few wavelengths with stored reference curves to limited tolerance; they cannot reach all stacks, angles and absorbing layers.",
    [MODEL], [("interface_r_s/p, interface_t_s/p", MODEL), ("coh_tmm", MODEL + ": per-layer 2x2 products, s and p")],
    O("tmm.py", "fresnel tmm_r tmm_t tmm_real tmm_pairs"),
    "value graphs of the four interface functions and of coh_tmm (all layers, loop carried matrices) equal those of the textbook recursion",
    ["coh_tmm", "interface_r_s", "interface_r_p", "interface_t_s", "interface_t_p"])

prop(
    "C03", "Psi and delta of a stack: definition, units, offset and branch",
    "For every stack, angle (degrees) and wavelength, psi is atan|r_p/r_s| and delta minus the phase of r_p/r_s, both in degrees, delta on the branch [0, 360); "
    "with the reflected convention a delta above 180 becomes 360 - delta, and the delta offset is added last. Thicknesses are in Angstrom, wavelengths in nm, the fronting medium does not absorb, and the layers array passed in is not altered.",
    ["inputs"],
    "all stacks, angles, wavelengths, offsets and both delta conventions",
    "Reference curves exercise one offset and one convention on a few stacks; branch and offset handling differ only in rare phase ranges.",
    [MODEL], [("Delta_Psi_TMM", MODEL + ": angle conversion, TMM, psi/delta, offset, reflection")],
    O("tmm.py", "psidelta") + O("model.py", "rows"),
    "value graph of Delta_Psi_TMM equals the reference definition, and the layers array ends as given",
    ["Delta_Psi_TMM"])

prop(
    "C04", "Effective medium mixing follows the documented formulas",
    "For every pair of complex indices, volume fraction and depolarisation factor, mixing with 'linear', 'maxwell-garnett' or 'bruggeman' gives the documented formula (Bruggeman on the physical root), "
    "elementwise for arrays, and any other name is rejected. Defaults are linear mixing and a depolarisation factor of 1/3, which a structure only accepts within [0, 1].",
    ["inputs", "configurations"],
    "all complex indices, scalar or array volume fractions, three mixing rules, all depolarisation factors",
    "Tests sample a couple of index pairs and fractions; wrong terms can vanish at the symmetric points they use.",
    [STRUCT], [("overall_ri", STRUCT), ("StructureSE.depolarisation_factor", STRUCT)],
    O("structure.py", "ema ema_arr ema_default ema_none ema_unknown mixed mixed_alone dp"),
    "value graph of overall_ri / MixedSlabSE.slabs equals the formula for each mixing rule on symbolic indices and fractions",
    ["overall_ri", "MixedSlabSE.slabs", "StructureSE.depolarisation_factor"])

prop(
    "C05", "A structure's stack is its components', solvated, ordered and complete",
    "For every structure, the returned stack is the concatenation of the components' own layers, in order, each evaluated at the structure's current wavelength; inner layers are mixed with the solvent (or the backing medium if none is set) "
    "by their solvent fraction under the structure's mixing rule, the outermost two are not. Reversing the structure reverses the layers and moves each roughness to the interface it belongs to. "
    "Every layer carries thickness, real and imaginary index, roughness and solvent fraction in that column order. A non-Gaussian interface anywhere selects the micro-slab representation (solvated by the same rule); "
    "slabs are contracted only when asked to, as the last step. A structure without components has no stack, and one whose first or last component is not a slab is refused.",
    ["inputs", "configurations", "programs"],
    "all sequences of components (also user-defined ones yielding several layers), wavelengths, mixing rules, solvents, both directions",
    "Tests build a few two to four layer stacks; user-defined components, reversed order with roughness and explicit solvents are sampled once or not at all.",
    [STRUCT], [("SlabSE.slabs, MixedSlabSE.slabs", STRUCT), ("StructureSE.slabs", STRUCT), ("StructureSE.overall_ri", STRUCT)],
    O("structure.py", "slab slab_nondisp mixed struct4 struct_rev struct_solvent struct_blocks struct_blocks_rev slab_reject contract contract_rev micro micro_rev smooth ends ri_method sdefault struct_none mixed_nondisp hollow later later_ema"),
    "value graph of StructureSE.slabs over symbolic components equals the reference assembly; components and parameters end unchanged",
    ["StructureSE.slabs", "SlabSE.slabs", "MixedSlabSE.slabs"])

prop(
    "C06", "Dispersion laws are the documented functions of wavelength",
    "Every dispersion model (Cauchy, Sellmeier, Lorentz, Gauss, Tauc-Lorentz) gives, at every wavelength in nm, scalar or array, the documented formula of its parameters' current values, with photon energy and wavelength converted by E = hc/lambda. "
    "A wavelength that is passed overrides the material's own default wavelength, which is used only when none is given. Oscillator parameters are paired by position.",
    ["inputs", "configurations"],
    "all parameter values, any number of oscillators, all wavelengths, scalar or array",
    "Tests compare single curves per law with stored values; they do not vary the number of oscillators, the default wavelength or off-resonance regimes such as below the gap.",
    [DISP, STRUCT], [("Cauchy/Sellmeier .complex", DISP), ("Lorentz/Gauss/TaucLorentz .epsilon", DISP), ("ScattererSE.complex", STRUCT), ("nm_eV_conversion", STRUCT)],
    O("dispersion.py", "cauchy cauchy_none cauchy_arr cauchy_dflt sell sell_eps lor_eps lor_one lor_none gau_eps tl_eps ev osc_arr osc_scalar num_default again"),
    "value graph of .complex/.epsilon equals the documented formula on symbolic parameters and wavelengths (sums over any number of oscillators)",
    ["Cauchy.complex", "Sellmeier.complex", "Lorentz.epsilon", "Gauss.epsilon", "TaucLorentz.epsilon", "nm_eV_conversion"],
    assumes=["scipy special functions and interpolation are uninterpreted: their arguments are compared, not their numerical results"])

prop(
    "C07", "Tabulated refractive indices are read and interpolated as given",
    "A material given as a constant, as (wavelength in um, n, k) arrays or as a file returns n + ik at any wavelength in nm by linear interpolation of its table in ascending wavelength order (the constant everywhere), whatever order the table is given in. "
    "The caller's arrays are not altered, and the default wavelength is used only when none is passed. A bundled material is found by name exactly when its table is shipped and behaves as its file; every bundled table is numeric: wavelength in um, n > 0 and optionally k >= 0.",
    ["inputs", "configurations"],
    "all tables (any length and order), files, wavelengths scalar or array",
    "Tests load silicon and a few bundled files and compare at one wavelength; unsorted tables, caller array mutation and defaults are not exercised.",
    [DISP, RE + "materials"], [("RI.__init__, RI.complex", DISP), ("load_material", DISP)],
    O("dispersion.py", "ri_const ri_table ri_file ri_arr ri_params material material_own"),
    "value graph of RI(...).complex equals linear interpolation of the sorted table in nm; caller arrays end unchanged; every row of every bundled table is inspected",
    ["RI", "RI.complex", "load_material"], rules=["tables:bundled"])

prop(
    "C08", "Every parameter that influences the output is exposed for fitting",
    "Each material, slab, structure and model lists in its parameters every parameter its results depend on, as the same objects that were given (or wraps of the numbers given), so changing a listed parameter changes the result computed next and nothing that matters is left out of a fit.",
    ["programs", "configurations"],
    "all materials with any number of oscillators, all components, models and changes of structure",
    "Tests check the count of parameters of a few objects; a missing or duplicated parameter in a particular class goes unnoticed.",
    [DISP, STRUCT, MODEL], [("parameters properties", DISP + ", " + STRUCT + ", " + MODEL)],
    O("dispersion.py", "cauchy_par sell_par lor_par gau_par tl_par ri_params num_par num_default mix_par again")
    + O("structure.py", "slab_par slab_num struct_par later") + O("model.py", "mpars withp swapped exchanged"),
    "value graph of .parameters flattened equals the given parameters in documented order and identity",
    ["*.parameters"])

prop(
    "C09", "Parameter vectors are assigned and transformed in one consistent order",
    "Setting an objective's parameters from a vector assigns the varying parameters in their order if the length is that of the varying ones, all parameters if it is that of all, and otherwise raises and changes nothing; None changes nothing. "
    "The prior transform and the list of varying parameters use the same order and never duplicates, with the noise parameter first when it is a parameter. Functions that take a parameter vector evaluate at those values; drawn samples are those of the parameters, with the burn-in, thinning and number asked for.",
    ["inputs", "configurations", "histories"],
    "all parameter sets, varying flags, shared parameters and vectors of every length",
    "Tests use objectives with two or three parameters, all varying; mixed flags, repeated parameters and rejected lengths are not covered.",
    [OBJ], [("ObjectiveSE.setp, varying_parameters, prior_transform, parameters", OBJ)],
    O("objective.py", "setp setp_ln ptrans pgen res_p chi_p hist_vary hist_swap"),
    "value graph of setp/prior_transform (heap of parameter values after the call, all exits) equals the ordered assignment",
    ["ObjectiveSE.setp", "ObjectiveSE.prior_transform", "ObjectiveSE.varying_parameters"])

prop(
    "C10", "Residuals are psi differences then circular delta distances of unmasked points",
    "The residual vector is the model psi minus measured psi of every unmasked point, followed by the shortest distance of model and measured delta around the circle, in the order of the data; chi-squared is the sum of its squares. "
    "The circular distance of any two angles lies in [0, period/2], is symmetric and does not change when a whole period is added to either. The model is evaluated in the data's delta convention. Data given as plain arrays or as a data set, and a noise level given as number or parameter, are treated alike.",
    ["inputs", "configurations"],
    "all data sets, masks, models, delta values any number of turns apart, both delta conventions",
    "The tests use values within one turn and unmasked data; masks, several turns and reflected data together are not covered.",
    [OBJ, DATA], [("circular_distance", OBJ), ("ObjectiveSE.residuals, chisqr", OBJ)],
    O("objective.py", "circ circ_default res chi npoints make make_w hist_mask hist_data"),
    "value graph of residuals()/chisqr()/circular_distance equals the definition for a symbolic model, data set and mask",
    ["ObjectiveSE.residuals", "ObjectiveSE.chisqr", "circular_distance"])

prop(
    "C11", "Log-prior, log-likelihood and log-posterior are consistent with each other",
    "The log-prior is the sum over the varying parameters, and minus infinity as soon as it is not finite; the log-likelihood is the Gaussian likelihood of the residuals with the noise model chosen, plus the model's own and the user's extra terms; "
    "the log-posterior is their sum when the prior is finite and minus infinity otherwise, and the negative versions are exact negatives. All see the parameter values passed in, and a NaN likelihood is an error; the model is not evaluated at parameters the prior rules out.",
    ["inputs", "configurations"],
    "all models, parameter vectors, noise settings, weights, extra terms",
    "Tests check one likelihood value; noise scaling, extra terms, rejected priors and the relation between the five functions are not exercised jointly.",
    [OBJ], [("ObjectiveSE.logp/logl/nll/logpost", OBJ)],
    O("objective.py", "logp logl logl_ln logl_extra nll logpost nlpost now make_w impossible hist_par"),
    "value graph of each function equals the defining expression over the same symbolic model, data and parameters",
    ["ObjectiveSE.logp", "ObjectiveSE.logl", "ObjectiveSE.nll", "ObjectiveSE.logpost", "ObjectiveSE.nlpost"])

prop(
    "C12", "The covariance is J^T J inverted and scaled, and leaves the parameters alone",
    "The covariance of the varying parameters is the pseudo-inverse of J^T J, J being the numerical Jacobian of the residuals at the current values (differentiated relative to the values, and the scaling undone, unless a value is zero or that fails), "
    "ordered as the varying parameters, with singular directions dropped, multiplied by chi-squared over (number of residuals - number of varying parameters) unless the objective is weighted; parameters without effect are an error. "
    "Whatever happens, also when the model fails half way, every parameter ends with the value it had before.",
    ["inputs", "configurations", "histories"],
    "all models, parameter values (also zero and negative), Jacobians (also rank deficient), weighted or not, failures of the model at any evaluation",
    "Tests call covar once through a fit; zero values, singular parameters, weighting and failing models are not covered.",
    [OBJ], [("ObjectiveSE.covar", OBJ)],
    O("objective.py", "covar covar_mask restore"),
    "value graph of covar over a symbolic model, data and parameters equals the formula; the map of parameter values after covar, on every exit, is the map before",
    ["ObjectiveSE.covar"],
    assumes=["scipy's approx_derivative calls the function at unspecified points near the given one and returns a matrix determined by the function and the point"])

prop(
    "C13", "A data set's views agree with its mask, and data sets are independent",
    "Wavelength, angle, psi, delta, the data tuple, the length and the per-wavelength groups of a data set are always the same points: those the mask keeps, in stored order, whatever the mask. "
    "Groups are one per distinct wavelength, ascending, and together hold each kept point once. Assigning new data replaces all four columns and clears the mask. "
    "A data set never shares its arrays, mask or metadata with the caller's arrays or with the data set it was built from.",
    ["inputs", "histories"],
    "all columns of any length, masks (also excluding everything), sequences of construction, masking, assignment and copying",
    "Tests build a few unmasked data sets; masked groups, reassignment after masking and aliasing between a data set and its source are not covered.",
    [DATA], [("DataSE.__init__, data setter", DATA), ("wavelength/aoi/psi/delta/data/__len__/unique_wavelength_data", DATA)],
    O("data.py", "ctor ctor_seq empty alias apart mask setter setter_alias copyctor copyflip groups again edit_mask"),
    "value graph of every view after construction, masking, assignment or copying equals the reference selection; arrays handed in are copied, not shared",
    ["DataSE", "DataSE.data", "DataSE.unique_wavelength_data"])

prop(
    "C14", "Saving and loading keeps every point in every column",
    "Saving writes all stored points (masked ones too) as four tab-separated columns wavelength, angle, psi, delta below a commented header; loading reads the four columns from the first line that starts with a number, from a path or an open file, "
    "and clears the mask, so that saving and loading again reproduces the stored columns. Saving leaves the data set as it was.",
    ["inputs", "histories"],
    "all data sets, masks, header lengths up to the documented 100 lines, path or handle",
    "Tests save and load one unmasked data set; masked data, other headers and handles are not covered.",
    [DATA], [("DataSE.save", DATA), ("DataSE.load", DATA)],
    O("data.py", "save save_delim load load_delim load_handle refresh refresh_mask"),
    "value graph of the table written (columns, delimiter, header) and of the table read (lines skipped, column to attribute) equals the reference",
    ["DataSE.save", "DataSE.load"],
    assumes=["np.savetxt and np.loadtxt are library calls: the arguments are compared, the text conversion is trusted"])

prop(
    "C15", "Delta reflection is applied exactly once and remembered",
    "Requesting reflection replaces every delta above 180 by 360 - delta and no other value, in every way of building or reloading a data set (arrays, files, another data set, refresh), marks the data set as reflected, "
    "never touches wavelength, angle or psi nor the caller's array, and without the request nothing changes. The mark survives copying and refreshing and is what makes the objective evaluate the model in the same convention.",
    ["inputs", "histories"],
    "all delta values, all ways of constructing, copying and refreshing, with and without a mask",
    "A single test constructs reflected data from one file; refreshing, copying and combining with masks are not covered.",
    [DATA, OBJ], [("DataSE._reflect_delta and its callers", DATA), ("ObjectiveSE.__init__", OBJ)],
    O("data.py", "ctor copyflip reflip refresh refresh_mask load alias") + O("objective.py", "res"),
    "value graph of the delta column and the flag after each way of construction equals one conditional reflection",
    ["DataSE(reflect_delta=...)", "DataSE.refresh"])

prop(
    "C16", "EP4 files: every spot and time becomes one averaged data set",
    "Reading an Accurion EP4 file yields one data set per (time, stage position) measured, in file order: a new position begins exactly where x or y has moved by more than 0.2 mm from where the current one began, every complete row belongs to exactly one data set, "
    "and each data set holds, per (angle, wavelength), the mean psi and delta of its rows, with angle, wavelength, psi and delta in their own columns. Name and metadata carry the rounded mean position and the time, or none when the file has a single position or no time; "
    "a file with one measurement returns the data set itself. Reflection applies as for any other data set.",
    ["inputs"],
    "all files with the EP4 columns, any number and order of times and positions, missing time or position columns, incomplete rows",
    "Tests read a few sample files and compare counts; boundaries between positions, interleaved times, incomplete rows and column order are not exercised.",
    [DATA], [("open_EP4file, _loadEP4, _make_EP4dname", DATA), ("custom_round", DATA)],
    O("loaders.py", "ep4_one ep4_plain ep4 round"),
    "value graph of the list of data sets (all columns, mask, name, metadata) over a symbolic table equals the reference partition and average",
    ["open_EP4file", "custom_round"],
    assumes=["pandas.read_csv and groupby().mean() are library calls with their documented meaning"])

prop(
    "C17", "FilmSense, M2000 and Horiba files: every measurement lands in its own place",
    "Reading a FilmSense, Woollam M2000 or Horiba file yields exactly the measurements in the file, in file order, with wavelength, angle, psi and delta each in their own column and unit: "
    "FilmSense N, C, S values become psi and delta per wavelength (static: one data set; dynamic: one per time); M2000 files give one data set, or one per distinct time (in seconds) of a dynamic file, thinned exactly as take_every and dropdatapoints ask; "
    "Horiba files give the rows of the DATA block strictly within the wavelength cutoffs, at the stated incidence angle. Header entries become metadata unchanged; FilmSense and M2000 files of another kind are rejected with an error.",
    ["inputs"],
    "all files of the three formats: any number of wavelengths, times, header entries and blocks in any order; all cutoffs and thinning factors",
    "Tests read one sample file per format and compare a few values; thinning, cutoffs, block order, empty blocks and times that repeat are not exercised.",
    [DATA], [("open_FilmSenseFile", DATA), ("open_M2000file and its two helpers", DATA), ("open_HORIBAfile", DATA)],
    O("loaders.py", "fs m2k m2k0 horiba horiba0"),
    "value graph of the returned data set(s), metadata and exceptions over symbolic file lines equals that of the reference reader",
    ["open_FilmSenseFile", "open_M2000file", "open_HORIBAfile"],
    assumes=["pandas.read_csv and groupby have their documented meaning; encodings are not modelled"])

prop(
    "C18", "Looking at a model or structure shows what it computes and changes nothing",
    "A refractive index profile is that of the structure's slabs at its wavelength, shifted so that the requested interface (Python indexing) lies at zero; interfaces that do not exist, and stacks without a fronting and a backing slab, are rejected. "
    "Plotting an objective, its data or its structure draws the unmasked data as they are (psi and delta on their own axes, with matching labels), the model's values at the drawn abscissae for every wavelength or angle of the data, the residuals and chi-squared where asked for, and the profile at each wavelength (from the side asked for); contradictory or missing arguments are refused. "
    "Afterwards, also when drawing fails, the structure's wavelength and direction and all parameter values are what they were before.",
    ["inputs", "fault_sequences"],
    "all data sets, models, structures, parameter values, alignments and sampled chains; failures inside the drawing of a structure",
    "The tests call plot() at most to see that it does not raise; nothing checks what is drawn or that the objects are left alone.",
    [STRUCT, OBJ, PLOT], [("StructureSE.ri_profile, StructureSE.plot", STRUCT), ("ObjectiveSE.plot", OBJ), ("plot_structure, plot_ellipsdata", PLOT)],
    O("plots.py", "profile profile_own profile_z pstruct pstruct_fail pstruct_obj splot oplot oplot0 oplot_mask pdata pdata_own preject pstruct_default pstruct_mask pstruct_unset splot_pvals splot_all splot_fail profile_ends keep_profile keep_plot"),
    "value graph of what is drawn on a recording canvas, and of the structure's settings and all parameter values afterwards, equals the reference; every exit of plot_structure and StructureSE.plot is covered",
    ["StructureSE.ri_profile", "StructureSE.plot", "ObjectiveSE.plot", "plot_structure", "plot_ellipsdata"],
    assumes=["refnx's sld_profile is a function of the slabs, z and max_delta_z; colours, legends' placement and figure creation are not modelled"])

prop(
    "C19", "Building structures by operators keeps components, order and settings",
    "Joining materials, components and structures with | and |=, repeating with * and appending yields exactly the components in the order written, as the same objects, without altering the operands other than the target of |=; things that are not components, repeat counts that are not integers and solvents that are not materials, are rejected and change nothing. "
    "Unless told otherwise a structure is empty, unreversed, uncontracted, linear-mixed and solvated by its backing, and a slab made from a material has no thickness, roughness or solvent. "
    "Copying a structure keeps its components and its settings (wavelength, mixing rule, depolarisation factor, solvent, direction).",
    ["programs", "inputs"],
    "all sequences of operators over materials, components and structures, any repeat count",
    "Tests join three components in a fixed way; repeats, in-place joins, copies of configured structures and rejected operands are not covered.",
    [STRUCT], [("ComponentSE.__or__/__mul__", STRUCT), ("StructureSE.__or__/__ior__/append/__copy__", STRUCT)],
    O("structure.py", "or ior ior_self mul mul1 mul_neg mul_frac copy append_bad ior_bad solvent_bad sdefault operands owners make_slab"),
    "value graph of the resulting component lists and settings equals the written sequence",
    ["StructureSE | |= * append copy"])

prop(
    "C20", "Calls leave their arguments alone and hand out results of the caller's own",
    "No calculation alters what it is given: arrays of wavelengths, angles, indices, thicknesses, slabs, energies, parameter values or data, nor the array a user's component or sample hands out, are after the call what they were before. "
    "What a calculation returns belongs to the caller: overwriting a returned array (amplitudes, psi and delta, slabs, indices, permittivities, residuals, views and groups of a data set) changes neither the objects nor what the same call returns next time. "
    "Changing an array after it was used to build a material changes nothing. Evaluating a structure, model or objective leaves its parameters, settings, data and mask as they were.",
    ["inputs", "histories"],
    "all arguments and all values written into results, for the transfer matrix, the model, slabs, mixing rules, dispersion laws, data views, objective and rounding functions",
    "Tests compare single results; none looks at the arguments afterwards or calls again after writing into a result.",
    [MODEL, STRUCT, DISP, DATA, OBJ], [("coh_tmm, Delta_Psi_TMM, ReflectModelSE.model", MODEL), ("slabs, overall_ri", STRUCT), ("complex, epsilon, RI.__init__", DISP), ("views, custom_round", DATA), ("ObjectiveSE", OBJ)],
    O("pure.py", "p_tmm p_psidelta p_model p_slabs p_mixed p_ema p_table p_laws p_osc p_obj p_calls p_prior p_circ p_views p_round k_slabs k_model k_objective"),
    "relational: value graph of arguments and of a second call after the first result was overwritten equals that of one call on private copies",
    ["coh_tmm", "Delta_Psi_TMM", "ReflectModelSE", "StructureSE.slabs", "overall_ri", "ScattererSE.complex", "ObjectiveSE", "DataSE"])

prop(
    "C21", "Objects built separately do not influence each other",
    "Creating, evaluating or changing (parameters, wavelength, settings, mask, metadata) a material, slab, structure, model, data set or objective never changes what another one computes or reports, "
    "unless the two were given the very object that was changed. That includes materials of the same kind, name or table, slabs made from one material, structures, models of one structure and objectives on one data set.",
    ["histories", "programs"],
    "all parameter values and inputs; pairs of objects of every class, the second used and changed after the first was built",
    "Tests build and use one object at a time.",
    [MODEL, STRUCT, DISP, DATA, OBJ], [("constructors and evaluation", DISP), ("SlabSE, MixedSlabSE, StructureSE", STRUCT), ("ReflectModelSE", MODEL), ("DataSE", DATA), ("ObjectiveSE", OBJ)],
    O("pure.py", "i_names i_laws i_osc i_tables i_slabs i_struct i_models i_objs i_data i_material") + O("data.py", "apart") + O("structure.py", "owners operands") + O("dispersion.py", "material_own"),
    "relational: value graph of an object's results with a second object built, used and changed in between equals that without it",
    ["all public classes"])

prop(
    "C22", "Printed summaries state the current values",
    "Printing a data set states its name and the number of unmasked points; printing a material states n and k at its own wavelength, a mixed slab its parameters; printing an objective states its name, its data set, the number of points, the current chi-squared, the weighting and all its parameters. "
    "Printing changes nothing.",
    ["inputs", "histories"],
    "all data sets, masks, names, materials, models and parameter values",
    "No test reads the printed text.",
    [STRUCT, DATA, OBJ], [("DataSE.__str__", DATA), ("ScattererSE.__str__, __complex__", STRUCT), ("ObjectiveSE.__str__", OBJ)],
    O("text.py", "t_data t_file t_ri t_obj t_noname t_repr t_mixed"),
    "value graph of the text equals the reference text built from the same quantities",
    ["str(DataSE)", "str(ScattererSE)", "str(ObjectiveSE)"],
    assumes=["the text of refnx's Parameters is taken as a function of the parameters listed"])

NOT_APPLICABLE = {}


def na(pid, title, statement, over, text, why, files, mech, reason):
    NOT_APPLICABLE[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=[], reason=reason)


na("N01", "Passive stacks never reflect more than they receive",
   "For every stack of passive media (k >= 0) with a transparent fronting medium the reflected s and p intensities lie in [0, 1], and reflected plus transmitted intensity is 1 when no layer absorbs.",
   ["inputs"], "all passive stacks, angles and wavelengths",
   "Tests compare curves of a few stacks with stored files; none bounds an intensity.",
   [MODEL], [("coh_tmm", MODEL)],
   "An inequality over products of any number of complex matrices of rounded numbers: it needs a proof about the recursion itself (or a numerical search), not a fact of the source. C02 fixes the recursion exactly, from which the bound follows by textbook physics.")
na("N02", "Calculations stay accurate and finite in floating point",
   "For every physically meaningful stack the calculated psi and delta are finite and agree with exact arithmetic to about 1e-6, also for very thick, strongly absorbing or index-matched layers and near the branch cut of the phase.",
   ["inputs"], "all stacks within physical ranges, IEEE double arithmetic",
   "Tests use benign stacks.",
   [MODEL, STRUCT, DISP], [("coh_tmm", MODEL), ("Delta_Psi_TMM", MODEL)],
   "Rounding and overflow depend on the run-time magnitudes of unboundedly many layers; the value graphs are over exact real/complex arithmetic and no sound static error bound for the matrix products is in reach.")
na("N03", "A fit recovers the parameters that generated the data",
   "Fitting a model to data generated by it with refnx's CurveFitter converges to the generating parameters within the uncertainty it reports.",
   ["inputs", "schedules"], "all models, start values, fitting methods",
   "Tests fit one data set with one method.",
   [OBJ, MODEL], [("ObjectiveSE as seen by refnx.analysis.CurveFitter", OBJ)],
   "Convergence is a property of scipy's iterations on run-time values. What a static argument can decide, that the objective offers the right residuals, order, priors and restored state, is C09 to C12.")
na("N04", "Dispersion laws satisfy causality",
   "The real part of every oscillator model is the Kramers-Kronig transform of its imaginary part at all photon energies.",
   ["inputs"], "all oscillator parameters and energies",
   "Tests compare a few curves.",
   [DISP], [("Lorentz, Gauss, TaucLorentz .epsilon", DISP)],
   "Equality of a principal-value integral with a closed form (with Dawson functions and logarithms) is an analytic theorem about the documented formula, not a fact of this source. C06 decides that the code computes the documented formula.")
