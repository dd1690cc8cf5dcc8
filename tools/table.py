VG = "static value-graph analysis (abstract interpretation of the syntax tree, global value numbering, interval domain)"
NOTE = ("For every obligation the code and the specification are lowered to one hash-consed value graph; equal value numbers "
        "prove the relation for all inputs in the stated ranges over the reals, disjoint interval enclosures refute it. "
        "Trusts the models of numpy/scipy in sa/npmodel.py; rounding is outside; unmodelled constructs are reported as undecided in the evidence and never raise an alarm.")
RULE = "value(code) = value(published equation) for every output element, for scalar and array arguments, on every branch. "

APIMECH = [("every public static and instance method", "rockphypy/*.py: classes EM, GM, Fluid, AVO, Anisotropy, BW, Empirical, Permeability, utils, QI")]

prop("C01", "Calling a function never changes the data passed to it",
     "No public function or workflow method modifies an array, list, matrix or stored log it is given: after any call every argument has exactly the values it had before, whatever branch, option or threshold the values trigger.",
     "all public functions, all option settings, array and list arguments with any values inside and outside the usual ranges",
     "Tests compare return values only and never look at an argument after the call; in-place updates hidden behind a mask or a threshold change the caller's data silently.",
     ALL, APIMECH, "static effect analysis: abstract heap with aliasing (views, buffers) and value numbering of argument buffers before and after each call", NOTE,
     "buffer of every mutable argument after the call = buffer before, on every path. ")

prop("C02", "Results depend only on the arguments, never on call history",
     "Calling any function again with the same arguments gives the same result, whatever calls with other arguments were made in between, and results handed out earlier are not altered by later calls. No call leaves a change in module, class, default-argument or library-wide state, and none consults time, randomness or the environment.",
     "all public functions and workflow objects; all interleavings of calls with equal and different arguments",
     "Tests call each function once in a fresh process; a cache keyed too coarsely, a mutable default or a shared result buffer needs a second call with other arguments to show.",
     ALL, APIMECH, "static effect analysis: abstract heap of module, class and default-argument state, nondeterminism effects, value numbering of repeated calls", NOTE,
     "f(x) ; f(y) ; f(x): first and third results equal, earlier results unchanged, persistent state unchanged, no ambient effect. ", over=("histories", "inputs"))

prop("C03", "Options, defaults and calling conventions behave as documented",
     "Every function can be called on its class or on an instance, positionally in the documented order or with its documented parameter names, with the same result. Leaving an option out selects its documented default, and each option value selects the variant its documentation describes.",
     "all public functions, all option values and their combinations, all admissible inputs",
     "Tests use one calling style and mostly one option value per function.",
     ALL, APIMECH, "static binding analysis over the abstract interpretation of every calling style, value numbering of the results against each other and against the documented variant", NOTE,
     "f(positional) = f(keywords) = instance.f = f with documented defaults omitted; value under each option = documented variant. ", over=("inputs", "configurations"))

prop("C04", "Results are dimensionally consistent and come in the documented units",
     "Changing the units of the inputs consistently changes the results by the corresponding factor only: scaling all moduli scales returned moduli and leaves ratios alone, scaling moduli and densities scales velocities by the square root of their ratio, lengths and permeabilities scale as their dimension requires. "
     "Where a formula is tied to fixed units (velocities in km/s or m/s, moduli in GPa, pressure in MPa, temperature in Celsius, grain size in micrometres), the conversions are exact and applied once, so absolute values come out in the documented units.",
     "all public functions, all scale factors, all admissible inputs",
     "Tests use one unit system and one magnitude; a constant in the wrong unit or an unbalanced exponent cancels at the sampled point or is below the tested digits.",
     ALL, APIMECH, VG, NOTE, "f(scaled inputs) = f(inputs) times the factor its dimension requires, for symbolic scale factors; value of unit-bound formulas = documented conversion. ")

prop("C06", "Array evaluation equals scalar evaluation, element by element",
     "Wherever a function accepts an array, the k-th element of the result is what the function returns for the k-th elements of the inputs: order and length are kept, elements do not influence each other, one-element arrays and integer input give the same numbers as floats, and scalars broadcast against arrays.",
     "all functions and all parameters documented as float or array; each array argument alone and all together; integer and float input",
     "Tests use sorted float arrays or scalars of one shape; masks, truncation of integers and mixed-up elements show only for unsorted, integer or mixed arguments.",
     ALL, [("elementwise formulas, masks and piecewise trends", "rockphypy/*.py")], VG, NOTE,
     "f(array)[k] = f(element k) for every k; result shape = input shape; f(int) = f(float). ")

prop("C07", "Every documented input influences the result",
     "Each parameter of a public function is actually used: changing it alone, within its admissible range, changes the result for some admissible setting of the others, and each option value changes the result. (Known exceptions in theory: the grain shear modulus in Brown-Korringa.)",
     "all public functions and all their parameters and option values",
     "A parameter that is shadowed, overwritten or replaced by a constant equal to the value used in the test leaves every test green.",
     ALL, APIMECH, "static dependence analysis on the value graph: value numbers of two calls that differ in one symbolic argument must differ", NOTE,
     "value(f(x..)) != value(f(x'..)) for each parameter x. ")

prop("C13", "Effective-medium models return the published equations",
     "Every effective-medium function (Voigt-Reuss-Hill averages, critical-porosity laws, Hashin-Shtrikman bounds, Eshelby-Cheng and Hudson crack models, dilute, self-consistent, differential and Mori-Tanaka schemes and the Berryman shape factors) returns, for all admissible inputs and option settings, the effective moduli its cited equation defines. "
     "This includes every branch on aspect ratio, crack orientation, order and bound, and iterative schemes perform exactly the update of the theory the requested number of times from the theory's starting point.",
     "all positive moduli, volume fractions summing to one, porosities, crack densities and aspect ratios (oblate, spherical, prolate), all option values, scalars and arrays",
     PINS + "a coefficient, sign, exponent or branch reached by no sampled point can change unnoticed, and several tests have no assertion on secondary outputs.",
     ["rockphypy/EM.py"], [("closed-form and iterative effective-medium formulas", "rockphypy/EM.py: class EM")],
     VG, NOTE, RULE)

prop("C14", "Granular-medium models return the published equations",
     "Every granular-medium function (Thomas-Stieber, shaly sand and silty shale, Hertz-Mindlin, Walton, Digby, Johnson, contact cement, soft sand, stiff sand, constant and increasing cement, patchy cement and varying patchy cement) returns for all admissible inputs the moduli defined by the cited theory. "
     "This holds for each cement scheme, mode and stress path, for the whole range of the friction fraction, and on both sides of every porosity or cement threshold.",
     "all admissible mineral and cement moduli, porosities below critical porosity, coordination numbers, stresses, friction fractions, schemes, modes, paths; scalars and arrays",
     PINS + "schemes, modes and thresholds are mostly visited on one side only.",
     ["rockphypy/GM.py"], [("contact and cement models composed of Hertz-Mindlin, Dvorkin-Nur and Hashin-Shtrikman interpolation", "rockphypy/GM.py: class GM")],
     VG, NOTE, RULE)

prop("C15", "Fluid-substitution and dispersion models return the published equations",
     "Every saturation model (Gassmann and its inverse, velocity and P-modulus-only forms, Brown-Korringa, Brie, Biot over all frequencies, Biot and Geertsma-Smit limits, Mavko-Jizba and anisotropic squirt, White-Dutta-Ode patchy saturation) returns the moduli, velocities, densities and attenuations its cited equations define, for all admissible inputs.",
     "all admissible dry, mineral and fluid properties, porosities, permeabilities, viscosities and frequencies (low, middle and high range of the viscodynamic operator); full 6x6 compliances; scalars and arrays",
     PINS + "frequency-dependent branches and off-diagonal tensor elements are sampled at one frequency and one isotropic tensor.",
     ["rockphypy/Fluid.py"], [("poroelastic substitution and dispersion formulas", "rockphypy/Fluid.py: class Fluid")],
     VG, NOTE, RULE)

prop("C16", "Reflectivity, anisotropy and elastic relations return the published equations",
     "Every reflection-coefficient, elastic-impedance, anisotropy and elementary elastic-relation function returns, for all layer properties, stiffnesses and angles, the quantity its cited equation defines, each output in its documented position. "
     "Matrix writers place every stiffness or compliance at its Voigt position.",
     "all layer velocities, densities, stiffnesses, Thomsen parameters, incidence and azimuth angles; scalars, angle arrays and layer arrays",
     PINS + "two of the reflectivity tests assert nothing, and rotations are tested about one axis at one angle.",
     ["rockphypy/AVO.py", "rockphypy/Anisotropy.py", "rockphypy/utils.py"],
     [("reflectivity and impedance formulas", "rockphypy/AVO.py: class AVO"), ("phase velocity, averaging and rotation", "rockphypy/Anisotropy.py: class Anisotropy"), ("elementary relations and matrix writers", "rockphypy/utils.py: class utils")],
     VG, NOTE, RULE)

prop("C17", "Batzle-Wang fluid properties follow the published correlations",
     "Density, bulk modulus and sound velocity of gas, dead and gas-saturated oil, water, brine, carbon dioxide and carbon dioxide-brine mixtures equal the Batzle-Wang (and cited) correlations for all pressures, temperatures, gravities, salinities and saturations in their range, with every coefficient, exponent and unit conversion as published. "
     "The mixing rule selected (uniform or exponent-based) is the one applied to the bulk modulus, while densities mix linearly.",
     "pressures 1-60 MPa, temperatures 10-120 C, gravities, gas-oil ratios, salinities and saturations; scalars and arrays; all option combinations",
     PINS + "long coefficient tables contribute below the tested digits at the single sampled state.",
     ["rockphypy/BW.py"], [("correlation coefficient tables and mixing", "rockphypy/BW.py: class BW")],
     VG, NOTE, RULE)

prop("C18", "Empirical trends and permeability relations follow their published forms",
     "Every empirical velocity, porosity and depth trend and every permeability relation returns its published formula for every input, with the published coefficients, on every depth segment and including the segment boundaries, element by element in the order of the input.",
     "all depths (unsorted, on and between segment boundaries), porosities, clay contents, grain sizes, saturations, pressures; scalars, floats, integers and arrays",
     PINS + "piecewise trends are tested on sorted arrays inside one segment.",
     ["rockphypy/Emp.py", "rockphypy/Perm.py"], [("regression formulas and depth segments", "rockphypy/Emp.py: class Empirical"), ("permeability relations", "rockphypy/Perm.py: class Permeability")],
     VG, NOTE, RULE)

prop("C19", "Quantitative-interpretation workflows compose the models consistently",
     "The rock-physics screening bounds, constant-cement velocities and cement-volume estimation are computed by mixing mineral, shale and cement properties in the documented proportions, evaluating the granular model for the requested cement scheme, and saturating the result; velocities outside a line's porosity range are undefined (NaN), never wrong numbers. "
     "The cement volume estimated for a sample that lies between two constant-cement lines is the linear interpolation of their cement volumes, and is limited to zero below the first line and to the last seed above the last line.",
     "all mineral, shale, cement, fluid properties, porosities on both sides of the cemented porosity, both schemes, shaly and clean sands, arrays and lists of seeds",
     PINS + "the workflow class has no tests for its estimation and masks.",
     ["rockphypy/QI.py", "rockphypy/GM.py", "rockphypy/Fluid.py", "rockphypy/EM.py"], [("composition of mixing, cement model, fluid substitution and NaN masks", "rockphypy/QI.py: class QI")],
     VG, NOTE, "workflow value = composition of the published models, element by element; masks equal on both sides of the threshold. ")

prop("C05", "Angles are degrees, converted exactly once, with the proper symmetry",
     "Every angle a user gives (incidence, azimuth, rotation, tilt, dip) is taken in degrees and converted once, whether one angle or an array is given. Results are therefore periodic in a full turn and have the symmetry of the medium: "
     "reflectivity and phase velocity do not change with the sign of the angle, azimuthal quantities repeat every half turn, transversely isotropic phase velocities are symmetric about the axis and the symmetry plane, and rotating by an angle and back restores the stiffness. Values at 0, 30, 45, 60 and 90 degrees are those of the exact sines and cosines.",
     "all angles including negative ones and more than a turn; scalars and arrays; all media",
     "Tests use one or two angles; a second conversion, a conversion missing on one branch or an angle taken from the wrong axis hides at small angles and at the single tested array.",
     ["rockphypy/AVO.py", "rockphypy/Anisotropy.py", "rockphypy/EM.py"], [("angle conversion in reflectivity, impedance, phase velocity, rotation and tilted crack models", "rockphypy/AVO.py, rockphypy/Anisotropy.py, rockphypy/EM.py: hudson_cone")],
     VG, NOTE, "f(angle) = f(-angle), f(angle + 360) = f(angle), f(90 + angle) = f(90 - angle) where the medium requires it, f at special angles = exact value, f(-angle) after f(angle) = identity. ")

prop("C08", "Stiffness and compliance matrices have the symmetry they claim",
     "Every 6x6 matrix written or returned is symmetric and has the pattern of its symmetry class: zeros where the class has none, equal entries where it requires them (isotropic: C11=C22=C33, C12=C13=C23, C44=C55=C66=(C11-C12)/2; transverse isotropy about axis 3 or 1: the tied pairs and C12=C11-2C66 or C23=C33-2C44), for all inputs and options. "
     "Substitution keeps what physics keeps: pore fluid changes no shear compliance of a medium with those symmetries, and rotation keeps symmetry and rotation invariants.",
     "all matrix writers, all crack models, Johnson, anisotropic Gassmann (Brown-Korringa), Bond rotation; all admissible inputs",
     "Tests compare selected entries for one input; two entries swapped or one entry written from the wrong constant coincide for isotropic test data.",
     ["rockphypy/utils.py", "rockphypy/Anisotropy.py", "rockphypy/EM.py", "rockphypy/GM.py", "rockphypy/Fluid.py"],
     [("matrix writers", "rockphypy/utils.py: write_iso, write_VTI_matrix, write_HTI_matrix, write_matrix, write_VTI_compliance"), ("crack models, rotation and anisotropic substitution", "rockphypy/EM.py, rockphypy/Anisotropy.py, rockphypy/Fluid.py: Brown_Korringa_*")],
     VG, NOTE, "C = C^T; entries outside the class pattern = 0; tied entries equal; shear compliances and rotation invariants unchanged. ")

prop("C09", "Models reduce to the known answer in every limit",
     "Each model returns the exact known result where theory fixes it: no porosity, cracks or inclusions gives the matrix, full concentration gives the other phase, equal constituents give that constituent, critical porosity gives a suspension or the loose pack, the end points of an interpolation give its end members, pores filled with mineral or a frame as stiff as the mineral give the mineral, exchanging a fluid for itself changes nothing, patches of the same fluid show no dispersion, isotropic media show no anisotropy, no salinity gives water, and a saturation of zero or one gives the pure fluid.",
     "all models, each at each of its limits, for all admissible values of the remaining inputs",
     "Tests sample interior points; a clamp, an off-by-one loop or a wrong end member shows only exactly at the end of the range.",
     ALL, [("end members of mixing, inclusion, contact, substitution and correlation models", "rockphypy/*.py")], VG, NOTE,
     "f at the limit = the closed-form end member, for symbolic remaining inputs. ")

prop("C10", "Inverse operations undo each other exactly",
     "Transformations and their inverses compose to the identity: Gassmann substitution to dry and back, from fluid 1 to 2 and back, and through any intermediate fluid; Brown-Korringa wet to dry to wet; moduli to velocities and back; velocities to stiffnesses and back for transversely isotropic rock; stiffness and compliance are inverses; Thomsen parameters recover the stiffnesses they came from. A substitution in two steps equals the direct one.",
     "all admissible rock and fluid properties, scalars and arrays",
     "Tests run one direction only, so a pair of formulas can drift apart while each still matches its pinned digits.",
     ["rockphypy/Fluid.py", "rockphypy/utils.py", "rockphypy/Anisotropy.py"], [("substitution and its inverse", "rockphypy/Fluid.py"), ("elastic relations and their inverses", "rockphypy/utils.py: V, M_from_V, v_to_c_VTI; rockphypy/Anisotropy.py: Thomsen")],
     VG, NOTE, "g(f(x)) = x and f(a->b) then f(b->c) = f(a->c) as value numbers. ")

prop("C11", "No contrast gives no reflection, and contrasts enter as they should",
     "Two identical layers reflect nothing at any angle and azimuth, and the amplitude attributes of an interface without contrast are zero. At normal incidence every approximation gives the same intercept; linearised reflectivities change sign when the layers are exchanged where the theory says so; isotropic layers give the isotropic answer at every azimuth; elastic impedance at zero angle is acoustic impedance and normalised impedance of the reference layer is the reference impedance.",
     "all layer properties, angles, azimuths; scalars and arrays",
     "Tests use one interface with contrast; terms that cancel or vanish only without contrast are never exercised.",
     ["rockphypy/AVO.py"], [("reflectivity, AVO attributes and elastic impedance", "rockphypy/AVO.py: class AVO")], VG, NOTE,
     "reflectivity(layer, layer) = 0; intercept at normal incidence equal across approximations; isotropic limit of the anisotropic forms. ")

prop("C12", "Functions that describe the same thing agree with each other",
     "Where the library offers several routes to one quantity, they agree for all inputs: vectorised and scalar shape factors; inclusion schemes and the shape factors they are built on; crack sets, cones and random orientations in their common cases; sand, shale and cement models and the Hashin-Shtrikman interpolation they are defined by; patchy cement and its varying-connectivity variant; moduli and velocity forms of fluid substitution, isotropic and anisotropic; log and layer averages; Thomsen and Tsvankin parameters; matrix writers; fluid mixtures and their parts; workflow lines and the models behind them. "
     "The numbering of phases or the order of layers does not matter.",
     "all pairs of routes, all admissible inputs, option settings, scalars and arrays",
     "Tests check each function alone against its own stored digits; a change to one of two siblings leaves both sets of digits plausible and, off the sampled point, inconsistent.",
     ALL, [("duplicated formulas: PQ and PQ_vectorize, pcm and vpcm, soft/stiff sand and HS, Gassmann family, matrix writers, workflow lines", "rockphypy/*.py")], VG, NOTE,
     "route1(x) = route2(x) as value numbers. ")

prop("C20", "Bounds, averages and limiting cases keep their order",
     "Results that theory orders come out in that order for every admissible input: Reuss <= Hill <= Voigt, and lower <= upper Hashin-Shtrikman bound, both inside Voigt and Reuss and inside the constituents; soft <= stiff sand, constant <= increasing cement, disconnected <= connected cement patches, varying connectivity between them, all between the loose or cemented pack and the mineral; "
     "cracks, pores and soft inclusions never stiffen the matrix and shape factors of soft inclusions are at least one; dry <= saturated <= mineral moduli, a stiffer pore fluid never softens the rock, Brie mixtures lie between their fluids, and high-frequency or unrelaxed limits are not below the low-frequency ones; "
     "layering is stiffer along than across the layers; P waves are faster than S waves; Poisson's ratio stays within [-1, 0.5]; gas is lighter and softer than oil, oil than water, water than brine, and fluid mixtures lie between their parts; the friable-sand line is below the cemented ones, and estimated cement lies between none and the last seed.",
     "all admissible moduli, porosities, saturations, fractions including 0 and 1; both cement schemes; scalars and arrays",
     "Tests pin one ordered pair; a bound computed from the wrong end member is still a plausible number at that sample, and crosses the other bound elsewhere.",
     ALL, [("bounds and mixing laws", "rockphypy/EM.py, rockphypy/Fluid.py"), ("granular and cement models", "rockphypy/GM.py"), ("layer averages, phase velocities, fluids and workflow lines", "rockphypy/Anisotropy.py, rockphypy/BW.py, rockphypy/QI.py")],
     VG, NOTE, "lower(x) <= upper(x): refuted when the two interval enclosures separate the wrong way on a box, proved when they never overlap on a cover of the ranges or when the difference has the value number of an expression that cannot be negative. ")

prop("C21", "Results respond to their inputs in the right direction",
     "Where theory fixes the direction of an effect, every result follows it over the whole admissible range: stiffer constituents, higher pressure, more contacts, more friction, more or better connected cement never soften a rock; porosity, cracks, soft inclusions, shale and clay never stiffen it; a stiffer fluid or frame never lowers the saturated modulus, more water never lowers a Brie mixture with a softer fluid, a denser rock is never faster; "
     "velocity trends never fall and porosity trends never rise with depth, also across segment boundaries; permeability grows with porosity and grain size and falls with irreducible water, tortuosity and percolation threshold; fluids get denser under pressure, lighter with temperature, denser and faster with salt; a harder lower layer raises the reflectivity at normal incidence; velocity grows with frequency between its limits; and a faster rock is never estimated to hold less cement.",
     "all functions with a direction fixed by theory, all admissible values, scalars and arrays, both cement schemes and all options",
     "Tests evaluate single points, so they never compare two inputs; a clamp, a swapped branch or a misplaced power can reverse a response in part of the range without moving any pinned digit.",
     ALL, [("mixing, sand, cement, crack and inclusion models", "rockphypy/EM.py, rockphypy/GM.py"), ("saturation and fluids", "rockphypy/Fluid.py, rockphypy/BW.py"), ("trends, permeability, reflectivity, workflows", "rockphypy/Emp.py, rockphypy/Perm.py, rockphypy/AVO.py, rockphypy/QI.py")],
     VG, NOTE, "f(x) <= f(x + d) for symbolic x and d >= 0, and sign of the symbolic derivative df/dx: refuted when the enclosures separate the wrong way on a box, proved when the enclosure over a cover of the ranges keeps the sign. ")

prop("C22", "Admissible input always gives finite, real, physical output",
     "For every admissible input, the ends of the ranges included, every function returns instead of raising, and returns finite real numbers: no NaN, no infinity, no complex leftovers, whether scalars or arrays are given. Moduli, velocities, densities, permeabilities and coordination numbers are not negative, fractions and normalised values lie in [0, 1]. "
     "The ends include: no porosity and critical porosity, no pressure, no friction and full friction, no cement, no cracks, empty and filled inclusions, spheres, equal constituents, one phase missing, saturation zero and one, no salt, no shear, vanishing contrast, normal incidence and angles of 0, 90 and 180 degrees, the surface and every depth-segment boundary.",
     "all functions over their documented ranges with both ends; scalars, integers and arrays that contain the ends",
     "Tests use values inside the ranges; a rearranged quotient, a logarithm or a mask fails only at exactly zero, one or the boundary.",
     ALL, [("every model at the ends of its ranges", "rockphypy/*.py")], VG, NOTE,
     "-1e15 <= f(x) <= 1e15 and 0 <= f(x) where physical: refuted by an enclosure on the wrong side, a NaN or a raised error on a box or at an end; proved when the enclosure over the whole range stays inside. ")

na("C23", "Implicitly defined results are converged solutions",
   "Where a result is defined by an equation that is solved numerically (self-consistent moduli, fluid-filled cracks, the differential scheme, the bonded contact radius), the returned numbers satisfy that equation to solver accuracy for every admissible input, and are the physical root.",
   "all admissible moduli, aspect ratios, crack densities, fractions and stresses",
   "Tests pin a few solutions to a few digits; whether the library solver converges from the fixed starting point depends on the input.",
   ["rockphypy/EM.py", "rockphypy/GM.py"], [("calls of fsolve, odeint and numpy.roots", "rockphypy/EM.py: Berryman_sc, OConnell_Budiansky_fl, Berryman_DEM; rockphypy/GM.py: Digby")],
   "Convergence of an iterative solver from a given start is a runtime quantity that no sound static argument in reach bounds. "
   "What the source does determine is claimed elsewhere: the residual, its right-hand side, starting point, step grid and the use of the result are compared with theory in C12, C13 and C14.")

na("C24", "Results are accurate to rounding where formulas nearly cancel",
   "For every admissible input, also next to a sphere, next to equal constituents, at weak contrast or at critical porosity, the returned number differs from the exact value of its formula by a small multiple of the unit roundoff.",
   "all admissible floating-point inputs, in particular neighbourhoods of removable singularities",
   "Tests compare three to five digits at well-conditioned points.",
   ALL, [("quotients and differences of nearly equal quantities", "rockphypy/*.py")],
   "The unchanged formulas (oblate and prolate shape factors next to one, Hashin-Shtrikman terms of nearly equal phases) do lose digits there, and a useful a-priori error bound over whole ranges is out of reach of the interval domain used here; "
   "all relations claimed are over the reals (integer truncation and single precision are tracked exactly in C06).")
