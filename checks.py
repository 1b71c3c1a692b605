"""One entry per property: its text (written to properties.jsonl), how it is checked (MANIFEST.json) and
which harnesses decide it.  gen.py writes the two files from this table."""
I = "include/huira/"
P = "include/huira_impl/"
CHECKS = {}


def prop(pid, title, statement, over, text, why, files, mech, harness, rule, note, **kw):
    CHECKS[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                       harness=harness, rule=rule, note=note, **kw)


def h(src, **kw):
    return dict(src=src, **kw)


SPACE = "the generators reach only the input ranges named in DESIGN.md; the search is random, not exhaustive"

prop("R01", "Rotations are rotations and compose, invert and convert as such",
     "For every rotation, built from any convention (axis-angle, quaternion, matrix, Euler order, basis axes), applying it "
     "preserves lengths, angles and handedness, the inverse undoes it, composition applies the right operand first, and "
     "every accessor (matrix, quaternion, Euler angles, axes) describes the same rotation it was built from. "
     "Inputs that are not rotations are rejected.",
     ["inputs"], "all axes, angles, quaternions, Euler triples (incl. near gimbal lock) and compositions of up to several rotations",
     "Unit tests fix a few angles about the axes; sign, order and transpose mistakes and near-singular conversions show only for general or near-degenerate rotations.",
     [I + "core/rotation.hpp", P + "core/rotation.ipp"],
     [("Rotation construction, composition, conversion", P + "core/rotation.ipp")],
     [h("rotation.cpp")], "A case is non-trivial when its angle is not a multiple of a right angle about an axis.",
     "Random rotations against a Rodrigues reference in long double.", assumptions=[SPACE])

prop("R02", "Transforms act as scaled rigid motions with consistent velocities",
     "Applying a transform equals scaling, rotating and translating in that documented order; its matrix form agrees; composing "
     "two transforms equals applying one after the other, and composing with the inverse gives the identity, for positions, "
     "directions, velocities and angular velocities alike (velocities agree with the numerical derivative of the moving frames).",
     ["inputs", "histories"], "all transforms with positive scale, any rotation, position, linear and angular velocity, and chains of them",
     "The kinematic terms (omega x r) and the non-uniform-scale cases vanish for the identity rotations and unit scales that tests sample.",
     [I + "core/transform.hpp", P + "core/transform.ipp"],
     [("Transform composition, inverse, to_matrix", P + "core/transform.ipp")],
     [h("transform.cpp")], "A case is non-trivial when rotation, translation and scale are all different from the identity.",
     "Random transforms against a long double reference and finite differences.", assumptions=[SPACE])

prop("U01", "Units convert exactly by their definitions and arithmetic is dimensionally sound",
     "Converting a value between any two units of a dimension multiplies by the ratio of their definitions (affinely for temperatures), "
     "round trips, and commutes with addition, scaling and comparison; products and quotients of units carry the product and quotient of "
     "the SI values, whatever units the operands are written in.",
     ["inputs"], "all unit types the library defines and all finite values over many magnitudes",
     "A test samples a few conversions; a wrong ratio for one unit, or a mixed-unit operation that uses the left operand's ratio, affects only some pairs.",
     [I + "units/units.hpp", I + "units/quantity.hpp", I + "units/dimensionality.hpp"],
     [("ratio arithmetic and conversion", I + "units/quantity.hpp"), ("unit definitions", I + "units/units.hpp")],
     [h("units.cpp", san="none", flags=["-O0"])], "A case is non-trivial when the two units differ and the value is not 0.",
     "Every unit against its definition, plus algebraic laws over random values.", assumptions=[SPACE])

prop("S01", "Spectral bins behave as vectors of band quantities",
     "Arithmetic on spectral values is bin by bin; totals, norms, extrema and wavelength integrals equal those of the bins' documented "
     "band edges; a total distributed over bins is conserved; tabulated spectra and RGB colours are resampled to each bin's mean over "
     "the bin, for any bin layout (uniform, edges, pairs in any order).",
     ["inputs"], "all values (incl. non-finite for validity), sample tables and bands over eight bin layouts",
     "Layouts other than RGB and samples that straddle bin edges take branches that the shipped tests never execute.",
     [I + "core/spectral_bins.hpp", P + "core/spectral_bins.ipp"],
     [("bin arithmetic and reductions", P + "core/spectral_bins.ipp"), ("integrate_over_data", P + "core/spectral_bins.ipp"),
      ("convert_rgb_to_spectral", P + "core/spectral_bins.ipp")],
     [h("spectral.cpp")], "A case is non-trivial when its bins are not all equal (arithmetic, colours) or its table has more than one sample.",
     "Reference model per layout, in double.", assumptions=[SPACE])

prop("P01", "Radiometry and aberration follow the physics",
     "Photon energies, Planck radiances and black-body bands match the laws (reference integral, Wien, Stefan-Boltzmann, monotone in "
     "temperature); a visual magnitude gives the photon flux of its zero point scaled by 100^(-dm/5), distributed like the Sun; stellar "
     "aberration returns unit directions moved towards the velocity by the relativistic formula and is undone by the opposite boost.",
     ["inputs"], "temperatures 3 K to 50000 K, wavelengths 1 pm to 1 km, magnitudes -30 to 30, speeds up to 0.99 c in any direction",
     "Physical laws relate many inputs; single sampled values (zero speed, one temperature) do not distinguish a missing factor.",
     [I + "core/physics.hpp", P + "core/physics.ipp", I + "core/constants.hpp"],
     [("plancks_law, black_body, visual_magnitude_to_irradiance, compute_aberrated_direction", P + "core/physics.ipp")],
     [h("physics.cpp")], "A case is non-trivial when the result is neither zero nor the input (speed not 0, direction not along it, radiance not underflowed).",
     "Independent long double formulas and physical laws.", assumptions=[SPACE])

prop("I01", "Images are faithful 2-D arrays and textures sample them correctly",
     "An image stores exactly what was written at each coordinate, by every accessor, and nothing else changes; checked access rejects every "
     "coordinate outside it; copies are independent. Nearest and bilinear sampling return the pixel or the bilinear blend at the wrapped (clamp, "
     "repeat, mirror) coordinate, never a value outside the image's range, for any finite coordinate.",
     ["inputs", "histories"], "all image sizes and pixel types, all finite UV coordinates, the three wrap modes, arbitrary reads and writes",
     "Negative coordinates, seams, one-pixel images and integer rounding are the cases fixed examples leave out.",
     [I + "images/image.hpp", P + "images/image.ipp"],
     [("accessors", P + "images/image.ipp"), ("sample_nearest_neighbor, sample_bilinear, wrap_coordinate", P + "images/image.ipp")],
     [h("image.cpp", libs=["fftw3f"])], "A case is non-trivial when the image has at least 2x2 pixels.",
     "Random images against an array model and a double precision sampler.", assumptions=[SPACE])

prop("I02", "Image convolution is the linear convolution for every kernel size",
     "Convolving an image with a kernel gives, at every pixel and channel, the zero-padded linear convolution centred on the kernel's middle, "
     "whichever algorithm (direct or FFT) the kernel's size selects; the image keeps its size.",
     ["inputs"], "all floating pixel types, image and kernel sizes, even and odd, kernels larger than the image, asymmetric kernels",
     "Symmetric kernels of one size cannot tell convolution from correlation nor see the switch between the two algorithms.",
     [I + "images/image.hpp", P + "images/image.ipp"], [("convolve", P + "images/image.ipp")],
     [h("convolve.cpp", libs=["fftw3f"])], "A case is non-trivial when image and kernel both have more than one pixel.",
     "Random images and kernels against the definition in double.", assumptions=[SPACE])

prop("C01", "Pixel and colour conversions are faithful",
     "Converting between integer and float pixels maps the integer range linearly onto the float range, clamps, rounds to the nearest level, is monotone and "
     "gives every 8- and 16-bit level back; colours reduce to grey by luminance; the sRGB transfer functions follow IEC 61966-2-1 and undo each other, "
     "for single values and whole images; normal and depth maps stay in range and order.",
     ["inputs"], "all signed and unsigned integer pixel types and ranges, all float values incl. NaN and infinities, images of any size",
     "Rounding, clamping and range mapping fail at single values (type extremes, the piecewise knee, constant images) that a sampled test misses.",
     [I + "images/io/convert_pixel.hpp", P + "images/io/convert_pixel.ipp", I + "images/io/color_space.hpp", I + "images/color_map.hpp"],
     [("integer_to_float, float_to_integer, convert_*", P + "images/io/convert_pixel.ipp"), ("sRGB transfer", I + "images/io/color_space.hpp"),
      ("normal_map, depth_map", I + "images/color_map.hpp")],
     [h("convert.cpp", libs=["fftw3f"])], "A case is non-trivial when the value is inside the range and not 0, or the image has more than one pixel.",
     "Every integer type against exact rational levels; sRGB against the standard's formula.", assumptions=[SPACE])

IOLIBS = ["fftw3f", "png", "turbojpeg", "tiff", "cfitsio"]
IOF = [P + "images/io/png_io.ipp", P + "images/io/tiff_io.ipp", P + "images/io/jpeg_io.ipp", P + "images/io/fits_io.ipp", P + "images/io/read_image.ipp"]
prop("F01", "Images written to a file read back the same",
     "An image written as PNG or TIFF (8 or 16 bit) reads back with every pixel (and for PNG alpha and colour-space tag) within half a level of the clamped original; "
     "a JPEG of a smooth image reads back within a few levels; a FITS file reads back floats exactly, integers within half a count, undefined pixels as NaN, "
     "and all its metadata, and rewriting it changes nothing. Invalid depths, qualities, empty images and unreadable files are errors.",
     ["inputs"], "all sizes, pixel values (incl. out of range and non-finite), bit depths, alpha, colour-space hints and FITS metadata",
     "Truncation, clipping, swapped channels or rows and lost keywords depend on the value, depth and shape; shipped tests write no image at all.",
     IOF, [("write/read PNG", IOF[0]), ("write/read TIFF", IOF[1]), ("write/read JPEG", IOF[2]), ("write/read FITS", IOF[3]), ("read_image", IOF[4])],
     [h("roundtrip.cpp", libs=IOLIBS)], "A case is non-trivial when the image has at least 2x2 pixels (dispatch: the extension is known).",
     "Round trip through real files for each writer.", assumptions=[SPACE,
     "TIFF files carry no alpha (the writer has none); 8-bit FITS reserves count 0 for undefined pixels; the caller does not override SATURATE; FITS paths use no CFITSIO filter syntax."])

DEC = [P + "images/io/bmp_io.ipp", P + "images/io/tga_io.ipp", P + "images/io/hdr_io.ipp", P + "images/io/png_io.ipp", P + "images/io/tiff_io.ipp", P + "images/io/fits_io.ipp"]
prop("F02", "Image decoders return the pixels the file format defines",
     "Every BMP, TGA, Radiance HDR, PNG, TIFF or FITS file of a supported kind (bit depth, colour type, palette, compression, row order, tiling, interlacing, byte "
     "order, padding, scan orientation) decodes to the pixels, alpha and colour-space its format definition gives, in colour and as grey mean, from memory and "
     "from file, with alpha only when asked for; truncated files are errors.",
     ["inputs"], "all supported variants of the six formats, image sizes and pixel values",
     "Decoders branch on combinations of header fields; the shipped tests decode no file, so row order, channel order, padding and palettes are unchecked.",
     DEC, [("BMP", DEC[0]), ("TGA", DEC[1]), ("HDR", DEC[2]), ("PNG", DEC[3]), ("TIFF", DEC[4]), ("FITS", DEC[5])],
     [h("decoders.cpp", libs=IOLIBS)], "A case is non-trivial when the image has at least 2x2 pixels.",
     "Reference encoders per format, all variants drawn at random.", assumptions=[SPACE,
     "Out of the domain: XYZE and old-style run-length HDR, right-to-left TGA, TIFF orientations other than top-left and non-RGB colour models, BMP palettes."])

prop("F03", "No byte string breaks an image decoder",
     "For every byte string, each image decoder either returns an image or throws an error with a message: it never reads or writes outside its buffers, "
     "overflows, crashes, hangs or leaks, its result depends on the bytes alone, the colour and grey readers accept the same files, and the memory it takes "
     "for raw formats is in proportion to the data.",
     ["inputs"], "mutated files of all supported variants of the seven formats, and arbitrary bytes behind each format's magic number",
     "Malformed files are unbounded in number; the failing ones combine header fields (dimensions, packet lengths, map sizes) in ways examples do not.",
     DEC + [P + "images/io/jpeg_io.ipp", I + "images/io/io_util.hpp"],
     [("BMP", DEC[0]), ("TGA", DEC[1]), ("HDR", DEC[2]), ("PNG", DEC[3]), ("TIFF", DEC[4]), ("FITS", DEC[5]), ("JPEG", P + "images/io/jpeg_io.ipp")],
     [h("decrobust.cpp", libs=IOLIBS)], "A case is non-trivial when the bytes were mutated, or decoded.",
     "Structure-aware mutation of generated files under AddressSanitizer and UBSan; repeat decodes with different memory fill.",
     technique="property-based fuzzing: structure-aware mutation of generated files, sanitizers and determinism, leak and memory oracles, shrinking",
     may_return_null="1", assumptions=[SPACE, "The image libraries themselves (libpng, libtiff, TurboJPEG, CFITSIO) are not instrumented."])

prop("T01", "Tycho-2 catalogue files are read as their format defines",
     "Reading a Tycho-2 main or supplement file yields one star per line with a usable position and magnitude, with the TYC id, position, proper motion and "
     "epoch taken from the fields the catalogue's format defines, magnitudes converted to V and temperature, and positions in radians; lines without them are "
     "skipped and leave no trace in other stars. Any text is read without memory errors, and a star's solid angle makes its black body as bright as its magnitude says.",
     ["inputs"], "all field values and missing-field combinations, line endings, truncated and mutated lines, last lines without new-line",
     "The format has optional fields whose absence changes which others are read; the shipped tests read no catalogue.",
     [I + "stars/io/load_tycho2.hpp", P + "stars/io/load_tycho2.ipp", I + "stars/io/star_data.hpp", P + "stars/io/star_data.ipp"],
     [("read_tycho2_dat, read_tycho2_suppl", P + "stars/io/load_tycho2.ipp"), ("StarData::process_magnitude", I + "stars/io/star_data.hpp")],
     [h("stars.cpp")], "A case is non-trivial when at least one line is a star.",
     "Generated catalogue lines with known values; mutated text under sanitizers.", assumptions=[SPACE])

prop("T02", "Star catalogue files keep every star and report damage",
     "Writing a star catalogue and reading it back gives every star that has a magnitude, in order of magnitude, brightest first, with every field exact, and reading "
     "down to a magnitude limit gives exactly the stars up to it. A truncated, mislabelled or inflated file is an error, as is a catalogue that cannot be written completely; "
     "Tycho ids pack, unpack and print as TYC a-b-c.",
     ["inputs", "fault_sequences"], "all star lists incl. empty ones, ties and stars without magnitude; every truncation point; every disk-full point; all ids",
     "Damage and faults can occur at any byte; the shipped tests neither write nor read a catalogue.",
     [I + "stars/io/star_catalog.hpp", P + "stars/io/star_catalog.ipp", I + "stars/io/tycho2_id.hpp"],
     [("StarCatalog read/write", P + "stars/io/star_catalog.ipp"), ("pack/unpack/format ids", I + "stars/io/tycho2_id.hpp")],
     [h("starcat.cpp")], "A case is non-trivial when the list is not empty (faults: the fault falls inside the file).",
     "Round trips, damage and injected write faults on real files.", assumptions=[SPACE])

BS = P + "materials/bsdfs/"
prop("M01", "Surface scattering laws are physical and sampled as they are evaluated",
     "Every BSDF (Lambertian, Lommel-Seeliger, McEwen, Oren-Nayar, Hapke, Cook-Torrance) returns its published reflectance: finite, non-negative, reciprocal, "
     "unchanged by turning the frame, zero below the horizon, reflecting no more light than arrives where its law conserves energy. Its samples are unit directions "
     "of the upper hemisphere distributed with the density pdf() reports, with weight f cos / pdf; the null BSDF passes light straight through.",
     ["inputs"], "all view and light directions, shading frames, albedos, roughness, metallic and Hapke parameters, random numbers",
     "Bias, lost energy or NaN at grazing, mirror or zero-roughness configurations cannot be seen at the few directions a test evaluates; the shipped tests evaluate no BSDF.",
     [BS + "lambertian_bsdf.ipp", BS + "lommel_seeliger_bsdf.ipp", BS + "mcewen_bsdf.ipp", BS + "oren_nayar_bsdf.ipp", BS + "hapke_bsdf.ipp", BS + "cook_torrance_bsdf.ipp"],
     [("eval/sample/pdf of each BSDF", BS)],
     [h("bsdf.cpp", libs=["fftw3f", "embree4"])], "A case is non-trivial when neither direction is the normal (samples: the sample is valid).",
     "Published formulas in double; sampling checked against quadrature.", assumptions=[SPACE,
     "Cook-Torrance formulas are compared for roughness of at least 0.2 only (single precision cannot resolve sharper peaks); both Smith shadowing variants are accepted."])

prop("M02", "Direction samplers draw from the density they report",
     "The uniform, cosine, power-cosine, sine, GGX and visible-normal samplers return unit vectors of the upper hemisphere, report a finite density that is the "
     "documented one at the sample, and are distributed accordingly; shading frames are right-handed orthonormal and convert back and forth; isotropic scattering is "
     "uniform over the sphere; random samplers repeat from their seed and fill [0,1) evenly; offsetting a point moves it off the surface along the normal by a tiny distance.",
     ["inputs"], "all random numbers incl. 0 and just under 1, exponents, roughnesses, view directions, normals, points and seeds",
     "A density that does not match its sampler biases every image and no single sample shows it.",
     [I + "materials/sampling_utils.hpp", I + "render/interaction.hpp", P + "render/interaction.ipp", I + "render/sampler.hpp", I + "volumes/scattering/isotropic_scatter.hpp"],
     [("hemisphere and GGX samplers", I + "materials/sampling_utils.hpp"), ("offset_intersection_, frames", P + "render/interaction.ipp"), ("RandomSampler", I + "render/sampler.hpp")],
     [h("sampling.cpp", libs=["fftw3f", "embree4"])], "A case is non-trivial when its random numbers are not 0 (frames: the normal is not the z axis).",
     "Analytic distribution functions against stratified samples.", assumptions=[SPACE, "GGX densities are compared for roughness of at least 0.25."])

prop("M03", "Materials combine textures, factors and normal maps as documented",
     "After any sequence of set and reset calls, evaluating a material gives texture times factor (times vertex albedo) for each slot, with resets restoring the defaults; "
     "the shading normal is the mapped normal in the surface's frame, the frame stays orthonormal (also without tangents or with mirrored ones), the rest of the "
     "surface point is kept, has_alpha() is true wherever opacity is below one, and scattering is the chosen BSDF's.",
     ["inputs", "histories"], "all call sequences, textures, factors, texture coordinates, surface frames and BSDFs",
     "Fifteen setters share state with defaults and implicit factors; a stale factor or frame appears only after particular call orders.",
     [I + "materials/material.hpp", P + "materials/material.ipp"], [("Material::evaluate and setters", P + "materials/material.ipp")],
     [h("material.cpp", libs=["fftw3f", "embree4"])], "A case is non-trivial when it makes at least three calls.",
     "Model-based call histories.", assumptions=[SPACE])

prop("V01", "Participating media attenuate exponentially and nest in any order",
     "Transmittance through a medium is exp(-extinction x distance) per channel, multiplicative over distance and never above one; free paths are exponential with the mean "
     "extinction, lie on the ray and never occur in vacuum; negative coefficients are rejected. A ray is inside exactly the volumes it has entered and not left, "
     "in whatever order, and the active medium is the one entered last.",
     ["inputs", "histories"], "all coefficients, distances, rays, seeds, and histories of entering and leaving up to eight volumes at once",
     "Overlapping volumes and per-channel extinction need histories and statistics; the shipped tests have neither.",
     [I + "volumes/medium.hpp", I + "volumes/medium_stack.hpp", I + "volumes/medium_properties.hpp", I + "volumes/density/constant_density_field.hpp"],
     [("Medium", I + "volumes/medium.hpp"), ("MediumStack", I + "volumes/medium_stack.hpp")],
     [h("media.cpp", libs=["fftw3f", "embree4"])], "A case is non-trivial when something absorbs or scatters (stacks: volumes are left out of order).",
     "Closed forms, a KS statistic and a list model.", assumptions=[SPACE, "More than eight volumes at once are outside the stack's stated capacity."])

prop("G01", "Rays find the nearest surface point of meshes and ellipsoids",
     "Tracing a ray at a triangle mesh or an ellipsoid (placed by any transform) reports the nearest surface point within the ray's range, or a miss when there is none: its position lies on "
     "the surface at the reported distance, the normal is perpendicular to the surface, and texture coordinates, albedo and tangents are those of the point. "
     "Malformed meshes are rejected.",
     ["inputs"], "all rays (inside, outside, grazing, starting on the surface), ranges, semi-axes, transforms, meshes and vertex attributes",
     "Grazing rays, tiny or flattened bodies and filtered hits fail only at particular directions; the shipped tests trace no rays.",
     [I + "geometry/mesh.hpp", P + "geometry/mesh.ipp", I + "geometry/ellipsoid.hpp", P + "geometry/ellipsoid.ipp", I + "render/ray.hpp"],
     [("Ellipsoid intersection and surface attributes", P + "geometry/ellipsoid.ipp"), ("Mesh", P + "geometry/mesh.ipp")],
     [h("geometry.cpp", libs=["fftw3f", "embree4"])], "A case is non-trivial when the ray hits.",
     "Embree queries against brute-force intersection in double.", assumptions=[SPACE])

prop("G02", "Frustum culling and clipping keep exactly what is visible",
     "A direction is inside a frustum exactly when it is on the inner side of every plane. Clipping a triangle gives pieces that cover each visible point of it once and "
     "nothing outside, facing as before with interpolated attributes; clipping a star's trajectory gives exactly the time intervals at which the interpolated "
     "trajectory, which passes through its samples, is visible.",
     ["inputs"], "all convex sets of planes, triangles across, inside or on them, and arcs of 1 to 16 samples, still, slow or winding",
     "A missed crossing drops a star trail or a triangle only for particular arcs; the shipped tests clip nothing.",
     [I + "render/frustum.hpp", P + "render/frustum.ipp", I + "render/trajectory_arc.hpp", P + "render/trajectory_arc.ipp"],
     [("Frustum clip_triangle, clip_arc", P + "render/frustum.ipp"), ("TrajectoryArc", P + "render/trajectory_arc.ipp")],
     [h("frustum.cpp", libs=["fftw3f", "embree4"])], "A case is non-trivial when the object crosses the frustum's boundary (directions: at least three planes).",
     "Point sampling and an independent natural cubic spline in double.", assumptions=[SPACE, "Points within a rounding distance of a plane or edge are not judged."])

C = P + "cameras/"
prop("K01", "Lens distortion follows its published model and undistorting inverts it",
     "Brown, OpenCV (rational, tangential, thin prism) and Owen distortion move every point as their published formulas say, leave the principal point and, without coefficients, every point "
     "where it is, and undistort() returns the point that distort() moved, to the set tolerance, wherever distortion is mild enough for an inverse.",
     ["inputs"], "all coefficients and points, within and beyond the field of view",
     "A wrong sign or missing term is small at the few points a test could list; the shipped tests evaluate no distortion.",
     [C + "distortion/brown_distortion.ipp", C + "distortion/opencv_distortion.ipp", C + "distortion/owen_distortion.ipp", I + "cameras/distortion/distortion.hpp"],
     [("distort, undistort of each model", C + "distortion/")],
     [h("distortion.cpp")], "A case is non-trivial when the point is not the centre (inverses: some coefficient is not zero).",
     "Published formulas in double; round trips where the displacement is a contraction of at most 0.4.", assumptions=[SPACE,
     "Beyond that the fixed-point inverse is not claimed."])

prop("K02", "Apertures, defocus blur and point-spread functions conserve light",
     "A circular aperture's area, diameter and uniformly spread samples agree; defocus kernels are discs of the thin-lens blur radius at the sub-pixel position and the Airy pattern is (2 J1(x)/x)^2 "
     "for the bin's wavelength; every PSF kernel is the PSF integrated over its pixels, non-negative, with unit sum per channel. The radius a faint point source is drawn with "
     "never cuts off a pixel ring that would get a visible number of photons.",
     ["inputs", "histories"], "all diameters, focal lengths, pitches, defocus, wavelengths, kernel radii, sub-pixel banks, PSF shapes and irradiances",
     "Energy lost at a kernel edge appears only at some sub-pixel positions; the shipped tests build no kernel.",
     [C + "apertures/aperture.ipp", C + "apertures/circular_aperture.ipp", C + "psfs/psf.ipp", C + "psfs/airy_disk.ipp", P + "render/psf_lut.ipp"],
     [("PSF::generate_polyphase_data_", C + "psfs/psf.ipp"), ("AiryDisk::evaluate", C + "psfs/airy_disk.ipp"), ("build_radius_lut", P + "render/psf_lut.ipp")],
     [h("optics.cpp", libs=["fftw3f", "tbb"])], "A case is non-trivial when something was changed after construction, or there is blur, or a kernel of more than one pixel.",
     "Closed forms and independent numerical integration.", assumptions=[SPACE, "Defocus discs that the kernel cuts at its edge are compared within the kernel."])

prop("K03", "Sensors turn received light into digital values as configured",
     "Without noise a pixel reads min(min(electrons, full well) / gain, 2^bits - 1) / (2^bits - 1), where electrons are energy over photon energy times quantum efficiency; with noise the mean and variance are "
     "those of shot, dark and read noise plus bias, always in [0,1]. Every setting reads back, invalid ones are rejected and change nothing, and each frame-buffer "
     "image is switched, kept and cleared independently.",
     ["inputs", "histories"], "all powers from none to far above saturation, exposures, bit depths, gains, full wells, efficiencies, noise levels and call sequences",
     "Saturation, zero exposure and parameter combinations need generated input; the shipped tests read no sensor.",
     [C + "sensors/simple_sensor.ipp", C + "sensors/sensor_model.ipp", I + "cameras/sensors/sensor_model.hpp", I + "render/frame_buffer.hpp"],
     [("SimpleSensor::readout", C + "sensors/simple_sensor.ipp"), ("SensorModel setters", C + "sensors/sensor_model.ipp"), ("FrameBuffer", I + "render/frame_buffer.hpp")],
     [h("sensor.cpp", libs=["fftw3f", "tbb"])], "A case is non-trivial when some pixel is neither dark nor saturated (settings: some call is rejected; buffers: at least two fills).",
     "A reference sensor in double, and statistics at six standard errors.", assumptions=[SPACE, "Infinite or NaN power is not claimed."])

prop("L01", "A sphere light emits its power and is sampled as the cone it subtends",
     "A sphere light of radius r and power P has in every bin the radiance P/(4 pi^2 r^2), a total power is the sum over the bins, a temperature gives Planck's radiance, and outside it the irradiance is "
     "L pi r^2/d^2. Sampled directions hit the sphere, cover its cone uniformly with density one over the solid angle, agree with pdf_li, which is 0 off the light, and sampling "
     "them estimates the same irradiance. A point inside the light gets nothing.",
     ["inputs"], "all radii, distances from the surface to a planet's, positions, powers, temperatures and random numbers",
     "Cancellation for small cones (the Sun from a planet) changes brightness by tens of percent; the shipped tests evaluate no light.",
     [P + "assets/lights/sphere_light.ipp", I + "assets/lights/sphere_light.hpp", I + "assets/lights/light.hpp"],
     [("sample_li, pdf_li, irradiance_at, set_spectral_power", P + "assets/lights/sphere_light.ipp")],
     [h("spherelight.cpp", libs=["fftw3f"])], "A case is non-trivial when the sample is not on the axis of the cone.",
     "The cone in double, stratified sampling, Planck's law by Simpson's rule.", assumptions=[SPACE])

prop("N01", "Every object in a scene registry has one unique name that finds it",
     "After any sequence of adding, removing and renaming, every object has a non-empty name of its own, looking it up gives that object, a free name is given as asked and a taken one as name_<number>. "
     "Renaming to its own name changes nothing, removed and former names are forgotten and free again, unknown names, empty new names, objects of others and objects added before are rejected, and the objects iterate in the order added.",
     ["histories"], "all sequences of add, remove, rename and lookup, with clashing and suffixed names",
     "Clashes with suffixed names and renames need histories; the shipped tests do not exercise the registry.",
     [I + "scene/name_registry.hpp", P + "scene/name_registry.ipp", I + "scene/scene_object.hpp"],
     [("NameRegistry", P + "scene/name_registry.ipp")],
     [h("names.cpp")], "A case is non-trivial when a taken name was asked for and a name became free.",
     "Model-based: a map of names kept alongside.", assumptions=[SPACE])

prop("N02", "The log keeps the last messages and reports crashes without hiding them",
     "For any sequence of messages, levels, buffer sizes, sinks and console settings, the written log is the last messages at or above the level, in order and whole, and every one of them reaches the sink and, "
     "if shown, the console. The same holds for threads logging at once, each thread in its order. A crash or uncaught exception writes one log naming it and the open scopes, "
     "and still ends the process with the same signal; with the handler off it does so silently.",
     ["histories", "schedules", "fault_sequences"], "all sequences of logger calls, several threads, and crashes by each handled signal, from any thread",
     "Ring-buffer wrap-around, resizes, data races and crash paths need histories, schedules and faults; the shipped tests log nothing.",
     [I + "util/logger.hpp", P + "util/logger.ipp", P + "platform/get_log_path.ipp"],
     [("Logger::log, set_buffer_size, dump_to_file, handle_crash", P + "util/logger.ipp"), ("HUIRA_LOG_*, HUIRA_THROW_ERROR", I + "util/logger.hpp")],
     [h("logger.cpp", san="none"), h("logthreads.cpp", san="tsan")], "A case is non-trivial when the buffer wrapped and was resized (threads: more than three messages each; crashes: messages and open scopes).",
     "Model-based; ThreadSanitizer; crashes in processes of their own, in scratch directories.",
     technique="property-based testing: stateful model of the log, random thread schedules under ThreadSanitizer, injected crashes, shrinking",
     assumptions=[SPACE, "Changing the buffer, sink or level while logging may drop messages; two threads crashing at once are not claimed."])

prop("N03", "Data, output and log paths resolve as set, and argument checks are exact",
     "A data directory set absolute is used as is, set relative is taken from the executable's directory, and resetting restores the default. Creating a path makes the directory (a file's parent) and touches no "
     "file; logs go to the variable's directory or the current one. Argument checks accept exactly finite (and positive) scalars, vectors and matrices, naming the argument.",
     ["inputs", "histories"], "all path shapes and settings sequences; all finite and special values at every position",
     "A NaN in one component, or '..' in a relative path, is not in any shipped test.",
     [P + "util/paths.ipp", I + "util/paths.hpp", I + "util/validate.hpp", P + "platform/get_log_path.ipp", P + "platform/get_exe_path.ipp"],
     [("Paths", P + "util/paths.ipp"), ("make_path", P + "util/paths.ipp"), ("validate_real, validate_strictly_positive", I + "util/validate.hpp")],
     [h("paths.cpp")], "A case is non-trivial when a relative path was set, several levels were created, or some component is not allowed.",
     "std::filesystem's lexical rules; isfinite per component.", assumptions=[SPACE])

SCENELIBS = ["fftw3f", "embree4", "tbb", "cfitsio", "png", "tiff", "turbojpeg", "assimp"]
MINI = "Kernels are those of a small ephemeris stand-in for CSPICE (stubs/cspice), which is not installed: the code between huira's interface and the toolkit is judged, not CSPICE itself."

prop("A01", "Instants agree in every time scale, calendar and interval",
     "An instant read from a date, a Julian date or seconds in UTC, TAI, TT or TDB is the instant that scale defines, leap seconds included, and converting it to any of them and back returns it. "
     "Unreadable strings are rejected and affect nothing later; adding and subtracting seconds and comparing instants agree with their ephemeris times. "
     "An interval's centre, duration, samples and membership follow from its two ends, which must be in order.",
     ["inputs"], "all instants from 1973 to 2060, all scales and string forms, all durations and sample counts",
     "Instants at leap seconds, string forms and scale pairs need generated input; the shipped tests have no time kernel.",
     [I + "core/time.hpp", P + "core/time.ipp", I + "core/interval.hpp", P + "core/interval.ipp"],
     [("Time", P + "core/time.ipp"), ("Interval", P + "core/interval.ipp")],
     [h("time.cpp", libs=["fftw3f"])], "A case is non-trivial when the instant is near a leap second or a scale other than TDB is used (strings: always; arithmetic: the step is not 0).",
     "A leap-second table and calendar of its own; round trips.", assumptions=[SPACE, MINI])

prop("A02", "SPICE queries give states in metres, rotations and errors faithfully",
     "States, rotations and orbits taken through the SPICE interface are those of the toolkit in metres and the stated frames, also in single precision; kernels load from relative paths and once per need. "
     "Every toolkit error becomes an exception with its message and leaves the interface usable. Any number of threads may query at once and get the answers they would get alone.",
     ["inputs", "histories", "schedules", "fault_sequences"], "all targets, observers, frames, corrections and times of generated ephemerides, call sequences with errors, kernel trees and thread schedules",
     "Frame pairs, error sequences and concurrent use need generated histories; the shipped tests make no SPICE call.",
     [I + "core/spice.hpp", P + "core/spice.ipp"],
     [("spkezr, sxform, conics, furnsh, call_spice", P + "core/spice.ipp")],
     [h("spice.cpp", libs=["fftw3f"]), h("spicethreads.cpp", libs=["fftw3f"], san="tsan")], "A case is non-trivial when frames and corrections are not the default (errors: more than one call fails; threads: always).",
     "The stand-in's own model evaluated directly; ThreadSanitizer.",
     technique="property-based testing: differential against a model ephemeris, injected toolkit errors, random thread schedules under ThreadSanitizer, shrinking",
     assumptions=[SPACE, MINI])

prop("A03", "Scene nodes are where their settings put them, at any time, to any observer",
     "A node's position, velocity, attitude and angular velocity in the barycentric frame at any time are those its own and its ancestors' settings give (constant rates, SPICE, callbacks, scale), "
     "a geometric observation sees the state when the light left it, and an aberrated one shifts the direction by the observer's velocity. "
     "Settings that contradict a SPICE child or parent are refused and change nothing, getters give what was set, and deleting a node removes it and all below it and no other.",
     ["inputs", "histories"], "all trees of nodes in every mode, all times, observers and velocities; all sequences of settings and deletions",
     "Mixed modes under moving, scaled parents and histories of mode changes need generated trees; the shipped tests build no scene.",
     [P + "scene/node.ipp", P + "scene/frame_node.ipp", P + "handles/scene/frame_handle.ipp", P + "handles/handle.ipp", I + "scene/state_callbacks/nadir_point.hpp", P + "core/transform.ipp"],
     [("get_apparent_transform, get_ssb_transform_, setters", P + "scene/node.ipp"), ("delete_child", P + "scene/frame_node.ipp"), ("Handle::valid", P + "handles/handle.ipp")],
     [h("nodes.cpp", libs=SCENELIBS)], "A case is non-trivial when the node has an ancestor and the observer is away from it (histories: some call is refused; graphs: something was deleted).",
     "An independent evaluator of the tree in rotation matrices; a model of modes and of the tree.",
     assumptions=[SPACE, MINI, "Light time is compared for nodes slower than c/100.", "A callback set on a node with SPICE children is not claimed."])

prop("A04", "Camera rays, projection, field of view and light agree after any settings",
     "cast_ray looks along the directions that project_point maps back to the same pixel for every lens, convention and principal point, in_fov accepts what the sensor sees and nothing outside an undistorted one, and a pixel takes its solid angle times the foreshortened aperture. "
     "With depth of field all rays of a pixel leave the aperture and meet on its point of the focal plane. "
     "All of that follows the present settings after any sequence of changes, and a refused change changes nothing.",
     ["inputs", "histories"], "all sensors, focal lengths, principal points, distortions and conventions; all sequences of valid and invalid settings",
     "Every derived quantity (distortion field, frustum, solid angles, kernels) is cached and must follow every setter; the shipped tests do not construct a camera.",
     [I + "cameras/camera_model.hpp", P + "cameras/camera_model.ipp", P + "cameras/sensors/sensor_model.ipp", P + "cameras/apertures/circular_aperture.ipp", P + "render/frustum.ipp"],
     [("cast_ray, project_point, compute_distortion_field_", P + "cameras/camera_model.ipp"), ("compute_frustum_, in_fov", P + "cameras/camera_model.ipp"), ("compute_pixel_solid_angles_, pixel_radiance_to_power", P + "cameras/camera_model.ipp"), ("setters, update_kernels_", P + "cameras/camera_model.ipp")],
     [h("camera.cpp", libs=["fftw3f", "tbb"])], "A case is non-trivial when the sensor is 2x2 or more and the lens, principal point or convention is not the default (histories: three changes and a refusal; depth of field: a finite distance off the aperture's centre).",
     "A double-precision pinhole and distortion model inverted by iteration; the aperture PSF of a freshly configured camera.",
     assumptions=["Distortions whose Jacobian stays within 0.5 of the identity over the field of view; pixel agreement within the interpolation error of one distortion-field cell.", "Points outside a distorted field of view are not claimed to be rejected."])

prop("G03", "A view of a scene intersects what is there, where it is at the ray's time",
     "A SceneView built over an interval places every instance at its nested, scaled, turned and moving pose relative to the camera; a ray at a given time hits exactly the nearest surface there, and the "
     "resolved point lies on that surface with its normals, tangents, texture coordinates and colours placed accordingly. Shadow rays are blocked by opaque surfaces nearer than the distance "
     "asked for and by nothing else. Batches agree with single rays, and later changes to the scene do not reach the view.",
     ["inputs", "histories"], "all scenes of meshes, ellipsoids and sphere lights in nested frames, with any scales, turns, motions, numbers of temporal samples and distances from the barycentre; all rays and times; deletions and moves after the view was built",
     "Errors appear only for combinations of nesting, non-uniform scale, rotation during the exposure and ray time; the shipped tests trace no rays through a scene.",
     [I + "scene/scene_view.hpp", P + "scene/scene_view.ipp", P + "scene/scene.ipp", P + "geometry/mesh.ipp", P + "geometry/ellipsoid.ipp"],
     [("SceneView intersect, resolve_hit, evaluate_transmittance", P + "scene/scene_view.ipp")],
     [h("sceneview.cpp", libs=SCENELIBS)], "A case is non-trivial when its view has at least two instances and at least three of its rays hit something.",
     "A double-precision ray caster over independently composed poses.",
     assumptions=["Hits near an edge, a silhouette or edge-on are judged by distance only.", "Rotations during an exposure are within what Embree's quaternion interpolation resolves (1e-4 rad)."])

prop("R03", "Frame buffers hold what the pixels see, and the same on every run",
     "Depth, albedo, geometry ids and normals of a pixel that sees one surface are that surface's, in the camera's or the world's axes and weighted by opacity; pixels that see none say so, "
     "and nothing an earlier frame left in a buffer survives. The background stays fixed to the world however the camera turns. "
     "The same frame comes from any number of threads and any renderer, and a PSF convolves the image once, when asked to.",
     ["inputs", "histories", "schedules"], "all small scenes of opaque and translucent quads and spheres in posed rigs, skies, sensor rolls, sample counts, thread counts and PSF settings",
     "World axes, the sky's place and thread-dependence show only away from the identity pose and with several threads; no shipped test renders a frame.",
     [P + "render/renderer.ipp", I + "render/renderer.hpp", I + "render/frame_buffer.hpp", P + "scene/scene_view.ipp", P + "images/image.ipp"],
     [("path_trace_", P + "render/renderer.ipp"), ("FrameBuffer", I + "render/frame_buffer.hpp")],
     [h("aov.cpp", libs=SCENELIBS)], "A case is non-trivial when some pixels see a surface and others do not (sky: the camera is turned; threads: lights or motion; PSF: always).",
     "A double-precision ray caster for each pixel; frames drawn again by other numbers of threads; the image convolved by hand.",
     technique="property-based testing: reference ray caster, metamorphic re-rendering over thread counts and used buffers, shrinking",
     assumptions=["Pixels that an outline passes through are not judged.", "A custom renderer or scene that uses several GPUs does not exist here: TBB is the only scheduler."])

prop("R04", "Rendered light is what the surfaces, lights and media send",
     "In scenes with a known answer the power of a pixel is that answer within the noise of its samples: a uniform furnace shows albedo times sky for every material, spheres of light give the irradiance of their form factor, "
     "enclosures sum every bounce they are allowed, and media attenuate, scatter and emit as the radiative transfer of their coefficients says. "
     "Direct and indirect light add up to the whole, a limit on indirect light scales down each sample above it and nothing else, and sampling that may stop early takes every sample where nothing lets it stop.",
     ["inputs"], "all albedos, materials, light sizes, powers and places, bounce limits, media (absorbing, scattering, emitting; nested in null surfaces) and scene scales",
     "Light counted twice or lost depends on combinations of bounces, delta surfaces, media and sampling strategies; no shipped test renders a frame.",
     [P + "render/renderer.ipp", P + "assets/lights/sphere_light.ipp", P + "materials/material.ipp", I + "volumes/medium.hpp"],
     [("path_trace_", P + "render/renderer.ipp"), ("SphereLight sampling", P + "assets/lights/sphere_light.ipp")],
     [h("light.cpp", libs=SCENELIBS, san="none", flags=["-O2"])], "A case is non-trivial when the answer involves a light or a medium that is in view of the pixel, and not only the background.",
     "Closed forms: furnace, form factors, geometric series of bounces, Beer-Lambert and single scattering.",
     technique="property-based testing: Monte Carlo estimates against closed forms with statistical acceptance limits, shrinking",
     assumptions=["Estimates are compared within many standard errors of the samples taken.", "Dynamic sampling is compared only where pixels have no noise."])

prop("R05", "Point sources fall where they are seen, with the power they send",
     "A star or unresolved object gives its irradiance times the projected aperture to the pixel it is seen in, or spread by the defocus disc or PSF kernel of that very place; during an exposure it leaves its power along its path, in "
     "proportion to the time spent there, and what is out of view gives nothing. Surfaces nearer than a point hide it and those behind do not. "
     "Emitters, Lambertian spheres and H-G asteroids send what their models say at each instance's own distance and phase, and catalogue stars follow their proper motion.",
     ["inputs", "histories", "schedules"], "all sensors, fields of view, observation modes and velocities, turning cameras, PSFs, defocus, occluders, mixes of stars and unresolved objects, epochs and thread counts",
     "Half-pixel shifts, cropped stamps at tile borders, partly visible streaks and shared irradiance need generated scenes; the shipped tests render nothing.",
     [P + "render/renderer.ipp", P + "scene/scene_view.ipp", P + "render/trajectory_arc.ipp", P + "assets/unresolved/unresolved_asteroid.ipp", P + "assets/unresolved/unresolved_sphere.ipp", P + "assets/unresolved/unresolved_emitter.ipp", P + "cameras/apertures/aperture.ipp", P + "scene/scene.ipp"],
     [("render_unresolved_", P + "render/renderer.ipp"), ("resolve_irradiance", P + "assets/unresolved/unresolved_sphere.ipp"), ("load_dynamic_stars, update_star_epoch", P + "scene/scene.ipp")],
     [h("points.cpp", libs=SCENELIBS)], "A case is non-trivial when two points are seen and some is hidden, moving or an object (streaks: several temporal samples and something in view; irradiance: a general phase; epochs: a move of dynamic stars; others: always).",
     "Projection, aberration, phase functions and integrals along the path computed anew in double precision; the same body drawn as a surface.",
     technique="property-based testing: reference model of point images, differential against surface rendering, random histories of epochs, shrinking",
     assumptions=["Streaks are compared by the power on each side of random lines, within the renderer's sampling step.", "An object's irradiance is that of the exposure's start, as the code documents."])

prop("N04", "A scene's histories keep its objects, handles, graph and views consistent",
     "Through any sequence of adding, renaming, deleting and instancing geometries, materials, primitives, models, lights, unresolved objects, nodes and "
     "instances, each registry lists exactly what was added and not deleted, under unique non-empty names; handles are valid exactly while their object exists and give that object; "
     "the graph's parents and children agree; and a view made at any moment holds exactly the instances whose objects are alive, and stays as it was when the scene changes later.",
     ["histories"], "all histories of scene operations, including deleting an asset that is instanced (directly or in a model) and deleting it while views exist",
     "Dangling entries need a deletion after an instancing and then a view or a traversal; shipped tests delete nothing that is in use.",
     [P + "scene/scene.ipp", P + "scene/frame_node.ipp", P + "scene/name_registry.ipp", P + "scene/scene_view.ipp", I + "handles/handle.hpp", I + "assets/model.hpp"],
     [("delete_*, prune_graph_references_", P + "scene/scene.ipp"), ("SceneView construction", P + "scene/scene_view.ipp"), ("Handle validity", I + "handles/handle.hpp")],
     [h("scenes.cpp", libs=SCENELIBS)], "A case is non-trivial when something that has instances is deleted and a view is made afterwards.",
     "A model scene (names, owners, instances) in lock step with the real one.",
     technique="stateful property-based testing: random histories against a model scene, shrinking",
     assumptions=["Each scene's assets are instanced in that scene only."])

prop("A05", "Models load as the files describe them",
     "A glTF, GLB or OBJ model stands in the scene with every triangle where its file's nodes put it, with that file's normals, tangents, texture coordinates and vertex colours, and each mesh "
     "evaluates to its material's factors times its textures, colours being linearised and data textures taken as they are, whether embedded or beside the file. "
     "A texture that cannot be read is left out with the rest of the model intact, and a file that cannot be read throws and leaves no model behind.",
     ["inputs", "configurations"], "all node trees (rotated, scaled, mirrored), meshes with any attributes, materials, textures in files, URIs and buffers, faces of any size, index types and storage forms",
     "Wrong handedness, texture channel, colour space or cache hit shows only in models that combine these features; the shipped tests load no model.",
     [P + "assets/io/model_loader.ipp", I + "assets/io/model_loader.hpp", I + "assets/model.hpp", P + "geometry/mesh.ipp", P + "materials/material.ipp"],
     [("convert_transform_, convert_mesh_, process_materials_", P + "assets/io/model_loader.ipp"), ("load_material_texture_ and its caches", P + "assets/io/model_loader.ipp")],
     [h("models.cpp", libs=SCENELIBS)], "A case is non-trivial when more than four rays are judged and the file has materials (OBJ: more than three rays; unreadable: always).",
     "The scene that the file was written from: rays against its triangles in double precision, materials against its images.",
     technique="property-based testing: generated model files, reference ray caster and material evaluation, shrinking",
     assumptions=["Node trees are without shear, which transforms cannot hold.", "OBJ materials are not judged: their colours are not read.", "Meshes that no node uses need not be loaded."])

prop("A06", "What is set through a handle is what its object does",
     "Any sequence of settings through a camera or material handle leaves the camera or material as the same settings made on it directly, each failing or working alike, and what "
     "the handle reports is what the object reports. "
     "Once the thing behind a handle is gone the handle is not valid, and every call through it throws an exception.",
     ["inputs", "histories"], "all sequences of settings with usual, extreme and refused values, and every kind of handle after its scene is gone",
     "A forward that mixes up, drops or defaults an argument shows only for values that tell the arguments apart; shipped tests go through few handles and never outlive a scene.",
     [P + "handles/camera_handle.ipp", P + "handles/material_handle.ipp", I + "handles/materials/texture_handle.hpp", I + "handles/handle.hpp"],
     [("CameraModelHandle", P + "handles/camera_handle.ipp"), ("MaterialHandle", P + "handles/material_handle.ipp"), ("Handle::get_", I + "handles/handle.hpp")],
     [h("handles.cpp", libs=SCENELIBS)], "A case is non-trivial when it has more than two settings or calls (material: and sets a texture).",
     "A twin object set directly: its state, kernels, rays and material evaluations compared value for value.",
     technique="stateful property-based testing: random settings through a handle, differential against the object set directly, shrinking")

CLI = "apps/huira_cli/"
prop("T03", "The command line program finishes its work whole or says that it failed",
     "process-tycho2 writes a catalogue with exactly the stars of all its input files; fetch-tycho2 leaves each file whole or as it was before, keeps existing files unless forced, and "
     "run again after being killed ends with every file whole; input files are removed only when asked and only after the catalogue is saved. "
     "Anything that goes wrong (missing or unwritable files, a full disk, failed transfers, bad arguments, a throwing command) gives a message and a non-zero exit code, never an abort or a hidden cursor. "
     "Global options before the command are honoured, everything from the command's name on reaches the command unchanged, and its exit code is returned.",
     ["inputs", "fault_sequences", "crash_points"], "all argument lists over the program's options; input directories with any Tycho-2 lines, missing files, existing files; disk-full at any byte; transfers that fail at any byte; a kill in any transfer",
     "Truncated downloads, full disks and interruptions depend on the byte at which they occur, and silently give an incomplete star catalogue; the shipped tests do not run the program.",
     [CLI + "cli.cpp", CLI + "commands/process_tycho2.cpp", CLI + "commands/fetch_tycho2.cpp", CLI + "progress_bar.hpp"],
     [("Registry::dispatch", CLI + "cli.cpp"), ("process_tycho2", CLI + "commands/process_tycho2.cpp"), ("fetch_tycho2, download_file", CLI + "commands/fetch_tycho2.cpp")],
     [h("cli.cpp", repo_src=["apps/huira_cli/**/*.cpp"])], "A case is non-trivial when the files hold a star (dispatch: more than one argument; interruption: the kill falls inside the file).",
     "The program's own sources with stand-ins for the libraries that are not installed; real files, injected faults, a model of the directory.",
     assumptions=[SPACE, "libcurl, TCLAP and indicators are not installed: small stand-ins with the same interface take their place (/verif/stubs), so what the real libraries do is not covered."])

prop("N05", "The library can be used from any number of source files of a program",
     "A program of several source files, each including the library's main header and any of its other headers in any order and any number of times, compiles and links. "
     "Settings made in one file (log level, log buffer, data directory) are seen in all the others, and a function gives the same answer whichever file calls it.",
     ["configurations", "histories"], "all numbers of files, header sets and orders, library functions used, and sequences of settings",
     "Whether definitions clash depends on which headers two files share; every shipped test is one file, so the linker never sees two.",
     [P + "util/logger.ipp", P + "util/paths.ipp", P + "render/trajectory_arc.ipp", P + "stars/io/star_catalog.ipp", I + "huira.hpp"],
     [("Logger, Paths singletons and every function defined in a header", "include")],
     [h("program.cpp", san="none")], "A case is non-trivial when two files use the same part of the library.",
     "Generated programs, compiled and linked; a model of the shared settings; the same call from different files.",
     technique="property-based testing: generated programs through compiler and linker, model of shared state, shrinking",
     assumptions=["A file includes huira/huira.hpp, logger.hpp or paths.hpp before any other header: not every header is complete by itself.", "CSPICE is the stand-in of /verif/stubs."])
