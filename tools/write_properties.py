import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("C01","Blackbody radiance follows Planck's law",
"For every positive temperature and every wavelength or wavenumber in SI units, the blackbody radiance returned equals Planck's law, is positive and finite wherever the float type can represent it, increases with temperature, and the wavelength form and the wavenumber form describe the same spectrum. The result has one row per temperature and one column per wave value, in input order, whether temperatures are given as a scalar, list, numpy array (float32 or float64, any dimensionality) or lazy dask array, and dask input stays lazy. A temperature that is zero or NaN gives NaN, never a number, without disturbing its neighbours.",
["inputs"],"all temperatures > 0 K with hc/(lambda k T) representable, all wavelengths 0.1-1000 um and the corresponding wavenumbers, all input containers, sizes and dtypes",
"The tests evaluate a handful of temperatures at 11 um; they cannot see an error confined to another spectral region, precision, container, array length or to one invalid element among valid ones.",
["pyspectral/blackbody.py"],[("planck / blackbody / blackbody_wn","pyspectral/blackbody.py")],["pyspectral.blackbody.blackbody","pyspectral.blackbody.blackbody_wn"])

p("C02","Inverse Planck undoes Planck",
"Converting a blackbody radiance with the inverse Planck function returns the temperature it came from, and converting the temperature derived from any positive radiance forward returns that radiance, in wavelength and in wavenumber space and for arguments given by position or by keyword. The result has the shape, the container (scalar, numpy, dask, xarray with its coordinates and attributes) and the float precision of the radiances, grows strictly with radiance, and the inputs are left untouched. A NaN or negative radiance never yields a positive finite temperature and never raises, warns or disturbs its neighbours.",
["inputs"],"all wavelengths 0.3-100 um, all temperatures 2-10000 K or radiances for which the formula is representable, all containers and dtypes, any mixture of valid and invalid elements",
"Tests invert two radiances at one wavelength in each space; the round trip must hold for every wavelength, precision and container.",
["pyspectral/blackbody.py","pyspectral/utils.py"],[("blackbody_rad2temp / blackbody_wn_rad2temp","pyspectral/blackbody.py"),("use_map_blocks_on","pyspectral/utils.py")],["pyspectral.blackbody.blackbody_rad2temp","pyspectral.blackbody.blackbody_wn_rad2temp","pyspectral.radiance_tb_conversion.radiance2tb"])

p("C03","Lazy and chunked evaluation changes nothing",
"Every array computation of the library (inverse Planck, brightness temperature to radiance with and without look-up table, NIR reflectance and its emissive part, Rayleigh reflectance, high-zenith reduction, IR atmospheric correction) gives for a dask array, whatever its chunking, the same values, shape and dtype as for the equal numpy array, and the result stays a dask array until the user computes it: nothing given lazily is evaluated before that. No computation modifies the arrays given to it. The result does not depend on whether the chunks are evaluated serially or by several threads, nor on which other results are evaluated together with it.",
["inputs","schedules"],"all shapes, all ways to cut the arrays into chunks, float32 and float64, synchronous and threaded scheduler",
"Tests use one or two fixed chunkings of tiny arrays; a mistake at chunk borders, in declared dtypes or through shared state between chunks needs other chunkings.",
["pyspectral/blackbody.py","pyspectral/radiance_tb_conversion.py","pyspectral/near_infrared_reflectance.py","pyspectral/rayleigh.py","pyspectral/atm_correction_ir.py","pyspectral/utils.py"],
[("use_map_blocks_on","pyspectral/utils.py"),("tb2radiance LUT branch","pyspectral/radiance_tb_conversion.py"),("_map_blocks_or_direct_call","pyspectral/rayleigh.py"),("viewzen_corr","pyspectral/atm_correction_ir.py"),("Calculator.reflectance_from_tbs","pyspectral/near_infrared_reflectance.py")],
["return values of the public functions"])

p("C04","Band radiance is the response-weighted Planck integral",
"For any band of any instrument's spectral response file, converting brightness temperatures to radiance without a look-up table gives the Planck function integrated over the detector's spectral response, divided by the response integral when normalised (the default) and not divided otherwise, in SI units, in wavelength as well as in wavenumber space. The normalised radiance lies between the extreme monochromatic radiances over the band, increases with temperature, and does not depend on a constant factor on the response. The band may be named by its file name, by any documented alias or by its approximate wavelength, and the detector asked for is the one used; converting a radiance to temperature uses the Planck inverse at the band's central wavelength (wavenumber).",
["inputs","configurations"],"all response curves (shape, sampling, scaling, number of detectors, dtype), temperatures 150-400 K in any array shape, both wave spaces, every way to name the band",
"Tests use one MODIS and one SEVIRI response with mocked readers; nothing covers detectors, non-uniform sampling, response scaling, aliases or the wave spaces against each other.",
["pyspectral/radiance_tb_conversion.py","pyspectral/rsr_reader.py","pyspectral/utils.py"],
[("RadTbConverter._get_rsr / tb2radiance / radiance2tb","pyspectral/radiance_tb_conversion.py")],["RadTbConverter.tb2radiance","RadTbConverter.radiance2tb","RadTbConverter.rsr_integral"])

p("C05","Look-up table radiances agree with the direct conversion",
"A brightness temperature looked up in a generated temperature-to-radiance table gives a radiance within one table step of the direct conversion for every temperature inside the table's 150-360 K range, the nearest table end outside of it, NaN for NaN, and never decreases with temperature, for any table resolution, array shape and float type. A table written to file and read back holds the temperatures and exactly the radiances of the direct conversion. Writing a table that fails or is interrupted part-way never leaves a file that a later run takes for a valid table, and calculators making the same table at the same time all get a complete one.",
["inputs","histories","crash_points"],"all responses, table resolutions 0.01-5 K, temperatures -50 to 1000 K incl. NaN, both wave spaces, normalised or not; any failure point while the table is written; interleavings of several writers",
"The single LUT test compares one mocked table at a few temperatures; edges, resolutions, precision, NaN and failing writes are not exercised.",
["pyspectral/radiance_tb_conversion.py"],[("tb2radiance LUT branch, make_tb2rad_lut, read_tb2rad_lut","pyspectral/radiance_tb_conversion.py")],["RadTbConverter.tb2radiance(lut=...)","the .npz file"])

p("C06","SEVIRI regression conversion is exact and invertible",
"For every Meteosat platform and infrared band with tabulated EUMETSAT coefficients, named canonically or by alias, the SEVIRI converter gives the radiance L = C1 v^3 / (exp(C2 v / (alpha Tb + beta)) - 1) with v in SI units, and its inverse returns the temperature for every radiance, both ways, element-wise for any shape and float type. Both directions increase strictly and agree with the monochromatic Planck function at v for the scaled temperature. It needs no spectral response files, and refuses look-up tables, band-integrated radiances, non-string bands and platforms or bands without coefficients instead of returning a wrong number.",
["inputs"],"every (platform, band or alias) pair of the table, temperatures 120-400 K, all shapes and float types",
"Tests cover IR3.9 of Meteosat-9 only; 15 other coefficient sets and the aliases are never evaluated.",
["pyspectral/radiance_tb_conversion.py","pyspectral/bandnames.py"],[("SeviriRadTbConverter and its coefficient table","pyspectral/radiance_tb_conversion.py")],["SeviriRadTbConverter.tb2radiance","SeviriRadTbConverter.radiance2tb"])

p("C07","NIR reflectance removes exactly the thermal part",
"For every pixel the derived 3.x micron reflectance equals (L - c*T)/(F*cos(sunz)/pi - c*T), where L and T are the band-integrated radiances at the NIR and the thermal brightness temperature, F the in-band solar flux (given or derived), sunz the solar zenith angle clipped to the threshold, and c the Rosenfeld CO2 factor ((bt11 - 0.25(bt11-bt13))/bt11)^4 or 1 when no CO2 band is given. It is missing (NaN, masked for masked input) exactly where the sun is below 0 or above the masking limit, where any input is missing, or where the denominator is below 0.005 W/m2/sr, and no pixel influences another. Scalars, lists, numpy, masked and dask arrays are accepted, the float precision of the temperatures is kept when the look-up table is used (the default), bands outside 3.5-3.95 micron and mismatching shapes are rejected.",
["inputs","configurations"],"all temperatures 150-360 K incl. missing values, all sun zenith angles -10..180, thresholds, masking limits incl. None, given or derived solar flux, CO2 band or not, LUT or direct conversion, all containers",
"Tests check a few pixels of two sensors with mocked responses; limits, missing values per input, thresholds combined with masking limits and detectors are combinatorial.",
["pyspectral/near_infrared_reflectance.py","pyspectral/radiance_tb_conversion.py","pyspectral/solar.py"],
[("Calculator.reflectance_from_tbs and helpers","pyspectral/near_infrared_reflectance.py")],["Calculator.reflectance_from_tbs"])

p("C08","NIR calculator results depend only on the latest inputs",
"Whatever was computed before, with this calculator, another one or an earlier process sharing the look-up table cache, a reflectance depends only on the calculator's platform, instrument, band, detector, wave space and limits and on the arguments of that call; a CO2 correction used in one call does not linger in the next. The emissive part asked for afterwards belongs to the latest reflectance: it is (1 - reflectance) times the radiance at the thermal temperature, the measured NIR radiance where the reflectance is missing, as radiance or converted to brightness temperature. A cached look-up table of another band, detector, platform or wave space is never used, and a configured table file name is honoured.",
["histories","configurations"],"all sequences of calculator constructions and calls over several platforms, bands, detectors, wave spaces and configurations sharing one cache directory",
"Each test uses a fresh calculator in a fresh temporary directory, so nothing is ever reused.",
["pyspectral/near_infrared_reflectance.py","pyspectral/radiance_tb_conversion.py"],
[("Calculator._set_lutfile/_set_lut cache","pyspectral/near_infrared_reflectance.py"),("Calculator._rad3x* state","pyspectral/near_infrared_reflectance.py")],["Calculator.reflectance_from_tbs","Calculator.emissive_part_3x","tb2rad_dir"])

p("C09","In-band solar flux is the response-weighted solar spectrum",
"For any spectral response inside the solar spectrum's range, the in-band solar flux equals the integral of spectrum times response and the in-band irradiance is that flux divided by the integral of the response, so the irradiance lies between the extremes of the spectrum over the band, the flux scales linearly with the response while the irradiance does not change. Wavelength space (W/m2) and wavenumber space (mW/m2) describe the same energy, for the solar constant too; the detector and wavelength scale asked for are the ones used; a spectrum file of the user is used as given. Results do not depend on earlier calls on the same spectrum object, and the response passed in is left untouched.",
["inputs","histories"],"all responses within 0.25-10 um (shape, sampling, detectors), resolutions, user spectra, call histories",
"Tests integrate one MODIS band with three options; linearity, bounds, detectors and user spectra are not covered.",
["pyspectral/solar.py"],[("SolarIrradianceSpectrum._band_calculations / interpolate / convert2wavenumber","pyspectral/solar.py")],["inband_solarflux","inband_solarirradiance","solar_constant"])

p("C10","Spectral responses are read exactly as stored",
"Reading an RSR file, by platform and instrument or by file name, gives for every listed band and every one of its detectors the stored response, the wavelengths in micrometres whatever scale they are stored in, and the stored central wavelength, whether these are stored per detector or shared by the band, together with the platform, instrument, description and band names. Bands not listed and detectors beyond the stated number are not invented, and reading never modifies the file. Missing files raise FileNotFoundError and inconsistent arguments raise ValueError, never another instrument's data.",
["inputs","configurations"],"all files following the documented HDF5 layout: any bands, 1-20 detectors, shared or per-detector datasets, string or byte attributes, new or legacy platform attributes, any scale",
"Unit tests replace the file reader with a mock; real files of the various layouts are hardly read.",
["pyspectral/rsr_reader.py","doc/rsr_formatting.rst"],[("_load_rsr_info_from_file and helpers","pyspectral/rsr_reader.py")],["RelativeSpectralResponse attributes"])

p("C11","Conversion to the RSR file format round-trips",
"Any set of raw bands converted to the internal HDF5 format and read back gives the same band names, wavelengths and responses (to single precision), detector by detector, with the response-weighted central wavelength of each band and detector, in a file named after instrument and platform. This holds for any wavelength scale, any number of bands and detectors, and the file read back gives the same converted radiances as the raw data.",
["inputs"],"all raw responses, bands, detector sets, scales, instrument and platform names",
"The only test checks that a file exists.",
["pyspectral/utils.py","pyspectral/rsr_reader.py"],[("convert2hdf5","pyspectral/utils.py")],["the HDF5 file read with RelativeSpectralResponse(filename=...)"])

p("C12","Wavenumber conversion preserves the response function",
"Converting responses from wavelength to wavenumber pairs every response value with wavenumber 1e4/wavelength(um), in ascending order for ascending wavelengths, for every band and detector, and reports cm-1 with the scale to SI units; data already in wavenumbers is unchanged and the input is not modified. Converting an instrument in place also gives the response-weighted central wavenumber and keeps its bands, detectors and central wavelengths, the band integral is taken in the current wave space, and a second conversion is refused without changing anything.",
["inputs","histories"],"all band/detector sets, samplings and response values, including mixed and already converted data; sequences of convert/integral/lookup calls",
"One test converts one MODIS band.",
["pyspectral/utils.py","pyspectral/rsr_reader.py"],[("convert2wavenumber","pyspectral/utils.py"),("RelativeSpectralResponse.convert / integral","pyspectral/rsr_reader.py")],["convert2wavenumber","RelativeSpectralResponse.convert","RelativeSpectralResponse.integral"])

p("C13","Band statistics follow their definitions",
"For any spectral response the central wave is the response- (and weight-) weighted mean and lies within the band; the wave range is [first, central, last] where the response exceeds the threshold; the full width at half maximum spans the first to last point at or above half of the maximum response and does not change when the response is scaled; the energy bounds enclose the requested share of cumulated response and widen as the limit decreases. Sorting spectral data gives strictly increasing wavelengths with their responses, nothing lost but duplicates. The inputs are never modified.",
["inputs"],"all responses and samplings, thresholds, limits, weights, unsorted and duplicated wavelengths",
"Each function has one or two literal examples, all normalised to maximum one and uniformly sampled.",
["pyspectral/utils.py","bin/find_wavelengths_for_satpy.py"],[("get_central_wave, get_wave_range, get_fullwidth_halfmax, get_bounds_integrated_energy, sort_data","pyspectral/utils.py")],["return values","output of bin/find_wavelengths_for_satpy.py"])

p("C14","Bands are found by wavelength and by every alias",
"Asking for a band by wavelength returns exactly the band whose central wavelength (first detector) is within the tolerance, all of them when several match and multiple bands are allowed, an AttributeError when several match and they are not, and None when there is none; the name returned finds that band in files that name their bands canonically. A band can be looked up by its own name or by any documented alias of its instrument or the generic aliases, giving the same response object; own names win over aliases, unknown names raise KeyError or give the default.",
["inputs","configurations"],"all band sets and wavelengths, tolerances up to 2 um; every alias of every instrument",
"Tests try six wavelengths of one sensor and few aliases.",
["pyspectral/utils.py","pyspectral/rsr_reader.py","pyspectral/bandnames.py"],[("get_bandname_from_wavelength","pyspectral/utils.py"),("RSRDict","pyspectral/rsr_reader.py"),("BANDNAMES","pyspectral/bandnames.py")],["get_bandname_from_wavelength","RelativeSpectralResponse.rsr[...]"])

p("C15","Instrument names always resolve to the platform's instrument",
"For every known platform any accepted spelling of its instrument (upper or lower case, with slash, dash or neither) resolves to one and the same name and data file, and any other name resolves, with a warning, to that platform's (first) instrument, never to another one; on unknown platforms the name given is kept. Resolving an already resolved name changes nothing, and radiance converters and reflectance calculators made with any of these spellings find the instrument's bands, by any of their names, and give the same results. For the atmospheric correction a name that is not one of several instruments of a platform is refused.",
["inputs","configurations"],"every platform of the table and unknown ones, every spelling of every instrument, arbitrary other names",
"Tests sample a dozen of several thousand (platform, spelling) pairs.",
["pyspectral/utils.py","pyspectral/rayleigh.py","pyspectral/rsr_reader.py"],[("check_and_adjust_instrument_name, are_instruments_identical, INSTRUMENTS","pyspectral/utils.py"),("normalize_sensor","pyspectral/rayleigh.py")],["check_and_adjust_instrument_name","normalize_sensor","RelativeSpectralResponse.filename","RadTbConverter","Calculator"])

p("C16","Rayleigh reflectance is the interpolated table value",
"For every pixel the Rayleigh/aerosol reflectance in percent is 100 times the table value linearly interpolated in wavelength, sun zenith secant, satellite zenith secant and 180 minus the azimuth difference, limited to 0-100, with zenith angles clipped to the table's range and missing zenith angles taken as 0. Where a red band reflectance above 20 % is given it is reduced by the factor 1-(red-20)/80 and otherwise not at all; at wavelengths outside the table it is 0 everywhere. Each pixel depends on its own angles only, and the result has the shape and float precision of the input.",
["inputs"],"all look-up tables on regular grids, all angles (incl. NaN and beyond the table), wavelengths in, at the edge of and outside the table, red band values -20..120, shapes, float types",
"Tests use a constant table per wavelength, so an exchanged axis, azimuth convention or interpolation weight goes unnoticed.",
["pyspectral/rayleigh.py"],[("Rayleigh.get_reflectance and helpers","pyspectral/rayleigh.py")],["Rayleigh.get_reflectance"])

p("C17","Rayleigh correction picks the right table and wavelength",
"For each aerosol type and atmosphere the correction reads that combination's own table, as it is on disk when the correction object is made, whatever objects and calls came before; unsupported names raise AttributeError, a missing table file FileNotFoundError, and missing responses or unknown bands KeyError, never a result. A band given by name (or alias) uses the response-weighted mean wavelength with weight wavelength^-4 of that platform's own sensor and a band given as a number is taken as the wavelength in micrometres. The high-zenith reduction multiplies by 1 - strength*(zenith-threshold)/(max-threshold) limited to 0-1 above the threshold and by 1 below it.",
["inputs","configurations"],"all 11 aerosol types x 6 atmospheres with distinct tables, all platforms and bands, response curves, zenith angles and reduction parameters",
"Tests use identical fake tables for all aerosol types, so a wrong choice is invisible.",
["pyspectral/rayleigh.py","pyspectral/utils.py"],[("Rayleigh.__init__, _get_effective_wavelength_and_band_name, reduce_rayleigh_highzenith","pyspectral/rayleigh.py"),("get_rayleigh_lut_dir","pyspectral/utils.py")],["Rayleigh.get_reflectance","Rayleigh.reduce_rayleigh_highzenith"])

p("C18","IR limb correction follows the parametric formula",
"Each pixel of the corrected brightness temperatures is T + 10.85^((T-210)/110) - 1 at nadir (view zenith 0), T + ((T-170)/125)^4 * (7.2^(zen/70) - 1) for view zeniths between 0 and 90 degrees, and unchanged otherwise, whether data are plain numpy, masked or dask arrays. Masked and NaN pixels stay masked or NaN and no pixel influences another. The data handed to the correction object are not modified.",
["inputs"],"all 2-d temperature and zenith fields incl. zeniths exactly 0 and 90, negative and above 90, masks and NaN, float32 and float64, numpy, masked, dask",
"Tests compare one smooth field per container with literals.",
["pyspectral/atm_correction_ir.py"],[("viewzen_corr, AtmosphericalCorrection.get_correction","pyspectral/atm_correction_ir.py")],["AtmosphericalCorrection.get_correction"])

p("C19","Configuration is taken from the user's file only",
"The configuration is that of the file passed explicitly, else the file named by PSP_CONFIG_FILE, else the built-in one: every setting of that file, however nested, comes back with its value and nothing is added but the two data directories. The RSR and Rayleigh directories are the configured ones with ~ expanded, else the user data directory, and exist afterwards. Pointing PSP_CONFIG_FILE at something that is not a file raises an error instead of falling back to the defaults, changes to file or variable take effect on the next call, and the merge of nested dictionaries keeps every untouched setting.",
["configurations","histories"],"all YAML configurations (nested, empty, lists, strings with spaces), all sequences of changing the variable or file between calls",
"There are hardly any config tests; all others use one fixed small file.",
["pyspectral/config.py"],[("get_config, recursive_dict_update","pyspectral/config.py")],["get_config","recursive_dict_update","the file system"])

p("C20","Data are downloaded only when needed and allowed",
"Creating a reader or a Rayleigh correction contacts the network exactly when the data version file is absent or not equal to the required version and downloads are enabled in the configuration; reading a file named explicitly and dry runs never do, and a dry run writes nothing. Asking for an update downloads exactly the outdated items (one RSR archive; one archive per outdated aerosol type, each from its own address into its own directory) and after a successful update no further download takes place. An update check of the responses reports whether one was needed.",
["histories","configurations"],"all sequences of reader/correction constructions, update requests, version-file changes and configuration changes; all subsets of aerosol types",
"Tests mock the download function and look at single steps; no test follows a history through real archives.",
["pyspectral/rsr_reader.py","pyspectral/rayleigh.py","pyspectral/utils.py"],[("_RSRDataBase.download_rsr_updates, check_and_download","pyspectral/rsr_reader.py"),("RayleighConfigBaseClass, check_and_download","pyspectral/rayleigh.py"),("download_rsr, download_luts","pyspectral/utils.py")],["HTTP requests","data directories"])

p("C21","A failed download never passes for good data",
"Whatever goes wrong while downloading (HTTP error status, connection failure before or during transfer, truncated or corrupt archive, a full disk, an archive trying to write outside its directory) an error is raised, nothing is written outside the destination directory, previously installed files keep their content and the data are not considered up to date, so that the next attempt downloads again and, if it succeeds, repairs everything. After a successful download every file of the archive is in place with its content and the archive itself is removed. A process killed at any point of an update leaves each installed file either as it was or as in the archive, and the data are considered up to date only if all of them are in place. Updates running at the same time all succeed.",
["fault_sequences","crash_points","histories"],"all sequences of failing and succeeding downloads, all truncation points and fault kinds, all archive member orders and contents; a kill before any file operation; interleavings of several updates",
"The tests only cover a successful download of a tiny archive.",
["pyspectral/utils.py"],[("_download_tarball_and_extract","pyspectral/utils.py")],["exceptions","data directory contents","RelativeSpectralResponse.rsr_data_version_uptodate"])

p("C22","Testing utilities isolate and restore",
"Inside the testing context managers pyspectral works for every known platform and instrument without any network access, with the requested versions, directories, central wavelengths and look-up table data in effect; with downloads forbidden every attempt to download raises. When a context ends, normally or by an exception, and however contexts are nested, configuration and behaviour are exactly what they were before, temporary directories are gone and directories of the caller remain.",
["histories","configurations"],"all nestings and orders of the context managers with all their options, with and without exceptions",
"test_testing.py enters each context once or twice, without nesting or exceptions.",
["pyspectral/testing.py"],[("override_config, mock_*, forbid_pyspectral_downloads","pyspectral/testing.py")],["os.environ, get_config(), RelativeSpectralResponse, Rayleigh, Calculator inside and after the contexts"])

p("C23","Agency files convert to faithful RSR files",
"Converting agency response files (text, netCDF or spreadsheet, as each converter documents) yields an RSR file which, read back, holds for each band and detector the agency's wavelengths in micrometres and responses, sorted where the converter sorts, without the records marked as missing, and the response-weighted central wavelength. Comment and header lines, detector order in the file and detectors with different sampling do not change that. A band without a file raises an error.",
["inputs"],"all agency files of the documented column layouts: detectors, sampling, fill values, comments, ordering",
"The convert scripts have no tests at all.",
["rsr_convert_scripts/modis_rsr.py","rsr_convert_scripts/viirs_rsr.py","rsr_convert_scripts/abi_rsr.py","pyspectral/raw_reader.py"],[("ModisRSR/read_modis_response/convert2hdf5","rsr_convert_scripts/modis_rsr.py"),("create_viirs_rsr","rsr_convert_scripts/viirs_rsr.py"),("InstrumentRSR","pyspectral/raw_reader.py")],["the HDF5 file read with RelativeSpectralResponse(filename=...)"])

p("C24","Text attributes are converted to strings or rejected",
"Every str, every UTF-8 byte string and every numpy scalar or one-element array of such text is converted to the equal str, and converting twice changes nothing. Anything else offered to the numpy converter (numbers, larger arrays) and bytes that are no UTF-8 text raise ValueError, and the byte converter returns every non-byte value unchanged.",
["inputs"],"all unicode texts incl. empty and multi-byte, as str, bytes, numpy str/bytes/object scalars and arrays of any dimension with one element; all non-text values",
"Tests use the literal 'hey'.",
["pyspectral/utils.py"],[("convert2str, np2str, bytes2string","pyspectral/utils.py")],["return values"])
import os
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p("C25","Plots show the spectral data asked for",
"The plotting tools draw exactly the data asked for. plot_rsr.py draws one curve per detector of the band given by name or by wavelength; composite_rsr_plot.py draws, for every platform and each of the sensors asked for that it carries (however the sensor's name is spelled) and that has a response file, the first detector of the band of that name, of every band within 0.25 micron of the wavelength, or of every band inside the wavelength range except those excluded, each once. Each curve holds the wavelengths and responses as stored, leaving out those below the minimum response, and is labelled in the composite's legend with its band (and platform unless switched off). Platforms without any of the sensors or without data, and sensors without the band, are passed over without disturbing the others. Title, axis limits and file name given on the command line are used. The plot of a solar spectrum shows the whole spectrum in its own wave space and leaves it unchanged.",
["inputs","configurations"],"all response files, sets of platforms and sensors, and command lines of the two scripts",
"There is no test of the scripts; a curve of another detector, band or platform still makes a plausible picture.",
["bin/plot_rsr.py","bin/composite_rsr_plot.py","pyspectral/solar.py","pyspectral/rsr_reader.py","pyspectral/utils.py"],[("plot_band and the selection of bands","bin/composite_rsr_plot.py"),("the script","bin/plot_rsr.py"),("SolarIrradianceSpectrum.plot","pyspectral/solar.py")],["the figure saved"])
p("C26","Logging is switched on and off as asked",
"After logging is switched on with a level (debug_on: DEBUG, default WARNING), every message of that level or above sent to a logger obtained from the library is written exactly once to standard error and none below it, and after it is switched off none is, however often and in whatever order the switches were used before. Before it is switched on nothing is written. Handlers which users attached to a logger stay there when the library hands out that logger, and while logging is on receive its messages of the level or above and no others. Every message of the library's own can be written, and writing it changes no result.",
["histories"],"all sequences of logging_on(level), debug_on, logging_off and messages of every level",
"The tests never switch twice.",
["pyspectral/utils.py"],[("logging_on / logging_off / debug_on / get_logger","pyspectral/utils.py")],["standard error"])
open(os.path.join(HERE,'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80, x['title']
print(len(P))
