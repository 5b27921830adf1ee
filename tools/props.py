"""The properties and the registered checks: writes properties.jsonl and
MANIFEST.json.  Run:  python tools/props.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = 'CHECLabPy/'
PROPS = []


def prop(pid, title, statement, over, q, why, files, mech, note=''):
    PROPS.append(dict(
        id=pid, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=[C + f for f in files],
                     mechanism=[dict(name=n, where=C + w)
                                for n, w in mech])))
    NOTES[pid] = note


NOTES = {}
NOT_APPLICABLE = []

prop('P01', 'Time calibration shifts each pixel by its own correction',
     'Time-calibrated waveforms hold, for pixel p and sample s, the linear '
     'interpolation (extended linearly past both ends) of that pixel\'s own '
     'samples at position s - c[p], c being the correction listed for the '
     'pixel; an integer correction shifts exactly. The waveforms given are '
     'not modified and the result keeps their shape.',
     ['inputs', 'configurations'],
     'every waveform and every (real or integer, positive or negative, larger '
     'than the readout or not) correction',
     'No test covers the time calibrator; a test samples a few corrections, '
     'the interpolation index depends on sign, fraction and range of each.',
     ['calib/time_calibrator.py'],
     [('index and weights of the interpolation',
       'calib/time_calibrator.py:TimeCalibrator'),
      ('vectorised interpolation',
       'calib/time_calibrator.py:apply_t_cor')])
prop('P02', 'Amplitude calibration and illumination folding are per-pixel',
     'An amplitude v of pixel p is calibrated to (v - pedestal[p]) * ff[p] / '
     'conversion whatever the order and multiplicity of the pixels given, and '
     'unfolding/folding an illumination profile divides/multiplies each '
     'pixel (of one image or of a table of events) by its own correction, so '
     'that they undo each other. Neither modifies the values or coefficients '
     'it was given.',
     ['inputs', 'configurations'],
     'every value, pixel assignment, coefficient table',
     'No test covers the amplitude calibrator or the profile.',
     ['calib/amplitude_calibrator.py', 'calib/illumination_profile.py'],
     [('per-pixel coefficients',
       'calib/amplitude_calibrator.py:AmplitudeCalibrator.__call__'),
      ('fold and unfold', 'calib/illumination_profile.py')])
prop('P03', 'Pixel masks: union, superpixel expansion, merge, round trip',
     'The masks read from a file flag exactly the dead and low pixels it '
     'lists and the superpixels with any bad-HV pixel; the overall mask is '
     'their union with each bad superpixel s covering pixels 4s..4s+3, '
     'merging another file ORs the masks and replacing does not, and '
     'committed masks read back unchanged as the latest. Superpixel and '
     'module lists expand to exactly their 4 or 64 pixels, in order.',
     ['inputs', 'histories'],
     'every content of the 2048-pixel masks and every list of ids',
     'No test covers the masks; 2^6144 mask contents.',
     ['calib/pixel_masks.py'],
     [('reading and merging', 'calib/pixel_masks.py:PixelMasks._load_file'),
      ('union', 'calib/pixel_masks.py:PixelMasks.all_mask'),
      ('expansion',
       'calib/pixel_masks.py:PixelMasks.convert_superpixels_to_pixels')])
prop('P04', 'Amplitude matching sends only safe DACs and follows its stages',
     'Successive files move the DAC of each superpixel towards the target '
     'amplitude by 10, then 5, then 1, each superpixel on its own, passing '
     'to the next step when a move made the deviation larger (and going back '
     'to the DAC before), repeating the last step in a second pass once all '
     'superpixels are done and then reporting the end. The DACs sent always '
     'have shape (32, 16), are 255 for superpixels flagged bad-HV (every '
     'pixel of them flagged, if given per pixel) and lie in [10, 255] '
     'otherwise, a DAC that would leave this range becoming 255 for good in '
     'that pass. The amplitude used is the mean over events of the largest '
     'sample of each pixel, corrected for the illumination profile and '
     'averaged over the superpixel.',
     ['histories', 'inputs', 'configurations'],
     'every sequence of measured amplitudes, every start DAC and mask',
     'No test covers the matcher; its state evolves over a sequence of runs.',
     ['calib/amplitude_matcher.py'],
     [('stages', 'calib/amplitude_matcher.py:AmplitudeMatcher'),
      ('averages', 'calib/amplitude_matcher.py:AmplitudeMatcher.process')])
prop('P05', 'SiPM data-sheet values interpolate the table and nothing else',
     'Given exactly one of the four characteristics, the converter returns '
     'all four at the position where the given one lies between two '
     'neighbouring rows of the data sheet, by linear interpolation between '
     'those rows, a characteristic being NaN where either row has no entry '
     'for it. A value outside of the rows with an entry of its '
     'characteristic, or any other number of given values, is refused with '
     'ValueError.',
     ['inputs', 'configurations'],
     'every strictly increasing data sheet, with missing entries at its head '
     'and tail, every query',
     'No test covers the converter.',
     ['calib/sipm_data_sheet.py'],
     [('interpolation', 'calib/sipm_data_sheet.py:SiPMDataSheetConverter')])
prop('P06', 'Waveform files behave as sequences of their events',
     'A waveform file of N events (N limited by max_events) has length N; '
     'integer, negative, slice and list indexing and repeated iteration all '
     'deliver the samples and event information of exactly the events that '
     'the same index on a Python sequence selects, out-of-range indices '
     'raise IndexError and other types TypeError. R0 and R1 readers refuse '
     'files of the other level (IOError), a missing file is refused '
     '(FileNotFoundError), and slow-control lookups return the entry of the '
     'module and superpixel asked for or raise IndexError.',
     ['inputs', 'histories'],
     'every content of the file, every index, slice, list and order of reads',
     'The reader tests need data files that are not available, and sample '
     'one index.',
     ['core/io/waveform.py', 'core/io/tio.py'],
     [('indexing', 'core/io/waveform.py:WaveformReader.__getitem__'),
      ('reading an event', 'core/io/tio.py:TIOReader._get_event')])
prop('P07', 'Event information travels with the waveforms, times are exact',
     'Views, slices, copies, arithmetic and R1 calibration of the waveforms '
     'of an event keep its event number, first cell id, stale flag, missing '
     'packets, TACK, CPU time and truth information, without two events '
     'sharing it; calibrated waveforms are flagged as R1 and the raw ones '
     'stay as they were. The CPU time is exact to the nanosecond.',
     ['inputs', 'histories'],
     'every event, every time in [0, 2^32) s, a set of array operations',
     'No test reads the event information.',
     ['core/io/waveform.py', 'core/io/tio.py', 'calib/waveform.py'],
     [('propagation', 'core/io/waveform.py:Waveform.__array_finalize__'),
      ('time', 'core/io/waveform.py:Waveform.t_cpu'),
      ('calibration', 'calib/waveform.py:WaveformCalibrator.__call__')])
prop('P08', 'Rolling baseline, event alignment, averages, dead pixels',
     'The baseline subtracted from pixel p is the mean of the first samples '
     'over the last n events seen (the first events of the run standing in '
     'until then, fewer if the run is shorter); average waveforms are the '
     'mean of the events, baseline-subtracted and shifted (zero-filled) so '
     'that the maximum of each event\'s pixel average lies at the time asked '
     'for. The dead-pixel search lists exactly the pixels whose average '
     'waveform peaks below the given fraction of the mean peak; none of '
     'these modify the events.',
     ['histories', 'inputs'],
     'every sequence of waveforms within the bounds, every shift',
     'No test covers these; the baseline depends on the history of events.',
     ['utils/waveform.py'],
     [('rolling baseline', 'utils/waveform.py:BaselineSubtractor'),
      ('shift', 'utils/waveform.py:shift_array'),
      ('average', 'utils/waveform.py:get_average_wf'),
      ('dead pixels', 'utils/waveform.py:obtain_dead_pixel_list_r1')])
prop('P09', 'HDF5 tables hold every appended row, whatever the flushing',
     'After closing, every table of an HDF5 file holds exactly the rows that '
     'were appended to it, in order, wherever the writer (or a later '
     'appender) flushed, however appends to several tables interleave, and '
     'also when the work that fills it fails; '
     'write replaces a whole table, a new file one of the same name. The recorded sizes of a table and of the '
     'file equal the summed size in memory of those rows, and the writer '
     'never holds back more than 0.5 GB of a table.',
     ['histories', 'inputs'],
     'every interleaving, row content and row size (so every flush pattern)',
     'No test writes HDF5; flushing happens at 0.5 GB, far above what a test '
     'writes.',
     ['core/io/hdf5_writer.py', 'core/io/hdf5_appender.py',
      'core/io/hdf5_reader.py'],
     [('flushing', 'core/io/hdf5_writer.py:HDF5Writer.append'),
      ('appending', 'core/io/hdf5_appender.py:HDF5Appender')])
prop('P10', 'HDF5 metadata and mapping survive writing and appending',
     'Metadata added to an HDF5 file under a key and name (by the writer or '
     'later appenders, with or without a table under that key) reads back '
     'with the latest value of every entry and no entry of another key or '
     'name, and an unknown key or name raises KeyError. The stored mapping '
     'reads back with its columns and metadata, is no data table, and '
     'survives appending; reserved metadata names are refused. A file of '
     'another major version of the program opens with a warning.',
     ['histories', 'inputs'],
     'every order of metadata calls, entries and tables within the bounds',
     'No test covers HDF5 files.',
     ['core/io/hdf5_writer.py', 'core/io/hdf5_appender.py',
      'core/io/hdf5_reader.py'],
     [('collecting', 'core/io/hdf5_writer.py:HDF5Writer.add_metadata'),
      ('merging', 'core/io/hdf5_appender.py:HDF5Appender'),
      ('reading', 'core/io/hdf5_reader.py:HDF5Reader.get_metadata')])
prop('P11', 'Reading HDF5 tables: memory guard and complete chunks',
     'Reading a table whose recorded size exceeds 8 GB is refused with '
     'MemoryError unless forced, in which case it warns and delivers the '
     'complete table; smaller tables always read completely and keys without '
     'a table raise KeyError. Iterating in chunks yields every row exactly '
     'once and in order, in chunks of the size asked for or else of about '
     '(and at most) 2 GB; row and column selections return what they name.',
     ['inputs', 'configurations'],
     'every recorded size, row content and chunk size within the bounds',
     'No test covers reading, and none could hold 8 GB.',
     ['core/io/hdf5_reader.py'],
     [('guard', 'core/io/hdf5_reader.py:HDF5Reader.read'),
      ('chunks', 'core/io/hdf5_reader.py:HDF5Reader.iterate_over_chunks')])
prop('P12', 'DL1 files deliver the rows and run information of each event',
     'A DL1 file delivers, by event number, by position, by selection or by '
     'iteration, exactly the rows (one per pixel, in order) of the event '
     'asked for, for any distinct event numbers, in any order; an '
     'unknown event number raises IndexError and an unknown number in a '
     'selection is skipped. Serial numbers, temperatures, DACs and HV states '
     'are those stored for the module and superpixel asked for, or '
     'IndexError.',
     ['inputs', 'histories'],
     'every content and event numbering of the file, every lookup',
     'No test reads DL1 files.',
     ['core/io/dl1_reader.py'],
     [('event lookup', 'core/io/dl1_reader.py:DL1Reader.__getitem__'),
      ('run information', 'core/io/dl1_reader.py')])
prop('P13', 'DL1 extraction stores every good event, once, with its values',
     'Extracting a run writes one row per pixel for every event that is '
     'neither stale nor has missing packets, in order and whatever the '
     'buffering, holding that event\'s number, TACK, first cell id, times, '
     'Monte-Carlo truth, subtracted baseline and the configured columns of '
     'its time-calibrated, baseline-subtracted waveforms. The file also '
     'holds the numbers of stored and skipped events, first and last event '
     'time, run, module and superpixel information, mapping and '
     'configuration; simulated runs get one Monte-Carlo and one pointing row '
     'per stored event.',
     ['inputs', 'histories', 'configurations'],
     'every pattern of skipped events, every sample value, time correction, '
     'slow-control value and buffer state within the bounds',
     'extract_dl1 is not tested at all; the result depends on the history of '
     'skipped events through the sliding baseline and the buffer.',
     ['scripts/extract_dl1.py', 'core/io/dl1_reader.py',
      'core/io/hdf5_writer.py', 'utils/waveform.py'],
     [('event selection and columns',
       'scripts/extract_dl1.py:DL1Extractor.__call__'),
      ('writing', 'scripts/extract_dl1.py:DL1Writer.write_dl1_file'),
      ('buffering', 'core/io/hdf5_writer.py:HDF5Writer.append')])
prop('P14', 'Reducer columns follow the configuration and are independent',
     'The chain delivers exactly the columns activated by the keyword '
     'arguments, then the configuration file or, without one, the defaults; '
     'parameters follow the same precedence and requirements of inactive '
     'columns do not matter. Each column has the value it has when extracted '
     'alone and does not depend on the events before; neither the waveforms '
     'nor earlier results change.',
     ['inputs', 'configurations', 'histories'],
     'every assignment of flags in file and arguments, every waveform and '
     'event sequence within the bounds',
     'The flags give 2^n configurations, and interference shows only for '
     'particular combinations and orders.',
     ['core/reducer.py', 'core/chain.py', 'core/factory.py'],
     [('column activation', 'core/reducer.py:WaveformReducer'),
      ('chain', 'core/chain.py:WaveformReducerChain')])
prop('P15', 'Charge windows and waveform statistics are the stated sums',
     'AverageWF charges are the sums of each pixel\'s samples in the window '
     'of the given size and shift around the given extraction time or the '
     'maximum of the average waveform (kept 10 samples from the ends); '
     'Saturation sums from the window start to the end; Common gives mean, '
     'standard deviation and maximum of the first 20, last 20 or all '
     'samples. SPAmplitude gives the largest sample, and its position, of '
     'the summed superpixel; FlagFlashers the unit with the highest average '
     'pulse, or -1 below 30; SlidingWindow (Local) the window with the '
     'largest sum of the average (own, neighbours\') waveform.',
     ['inputs', 'configurations'],
     'every waveform and every window within the bounds',
     'Existing tests do not check values; windows and maxima depend on where '
     'in the readout the samples lie.',
     ['waveform_reducers/average_wf.py', 'waveform_reducers/saturation.py',
      'waveform_reducers/common.py', 'waveform_reducers/superpixel.py',
      'waveform_reducers/flag_flasher.py',
      'waveform_reducers/sliding_window.py'],
     [('windows', 'waveform_reducers/average_wf.py:AverageWF._prepare'),
      ('statistics', 'waveform_reducers/common.py:Common')],
     'ctapipe (not installed) is a stand-in.')
prop('P16', 'Pulse timing interpolates peak, FWHM and rise time',
     'The pulse time and amplitude of a pixel are the vertex of the parabola '
     'through the largest sample of the search window (around the given '
     'extraction time, or the maximum of the average waveform kept 10 '
     'samples from the ends) and its neighbours, '
     'above the mean of the first 10 samples, and 0 when there is no vertex '
     'inside the readout. FWHM is the distance of the linearly interpolated '
     'half-maximum crossings on both sides of the peak and the rise time '
     'that of the 10% and 90% crossings before it, taking the crossings '
     'closest to the peak and NaN where one is missing.',
     ['inputs', 'configurations'],
     'every waveform within the bounds',
     'Crossings depend on the order of all samples around the peak: several '
     'crossings, plateaus, none at all.',
     ['waveform_reducers/timing.py'],
     [('peak and crossings',
       'waveform_reducers/timing.py:obtain_pulse_timing')])
prop('P17', 'Cross-correlation charge, height and time match the pulse',
     'The cross-correlation of a pixel at sample s is the sum of its samples '
     'weighted with the reference pulse laid with its peak on s, normalised '
     'so that a pulse of area q gives q at its peak; the charge is its value '
     'at the maximum of the camera average (Local: of the pixel, Neighbour: '
     'of the average of the neighbours), the height that charge times the '
     'maximum of the reference of unit area. The time is the vertex of the '
     'parabola through that sample and its neighbours, or the sample itself '
     'at the ends of the readout or where the vertex lies outside of it.',
     ['inputs', 'configurations'],
     'every waveform within the bounds, several reference pulses',
     'Existing tests do not check values; the result depends on alignment '
     'with the reference pulse, truncation at both ends and ties.',
     ['waveform_reducers/cross_correlation.py'],
     [('correlation and normalisation',
       'waveform_reducers/cross_correlation.py:CrossCorrelation'),
      ('vertex of the parabola',
       'waveform_reducers/cross_correlation.py:extract_pulse_time')],
     'ctapipe (not installed) is a stand-in.')
prop('P18', 'The running mean and variance equal those of all samples',
     'After any sequence of updates, the count is the number of samples, the '
     'mean their mean and M2 the sum of their squared differences from it, '
     'whatever their order; one update takes any state of n samples to that '
     'of n + 1.',
     ['inputs', 'histories'],
     'every sequence of samples within the bounds, every state of up to 10^6 '
     'samples',
     'No test covers it; it is an invariant over the whole history.',
     ['stats/welfords.py'],
     [('one step', 'stats/welfords.py:welfords_online_algorithm')])
prop('P19', 'The probability functions follow their definitions',
     'poisson, binom and normal_pdf return the Poisson, binomial and Gaussian '
     'probability (density) of their arguments; xlogy is x log y, and the '
     'Poisson log probability is k log mu - mu - log k! also for a k that is '
     'not an integer.',
     ['inputs'],
     'every mean, probability, position and width within the bounds, every '
     'count up to the bound',
     'Existing tests compare with scipy at a few points.',
     ['stats/pdf.py'],
     [('probability functions', 'stats/pdf.py')],
     'exp, log and lgamma are real functions axiomatised by their functional '
     'equations.')
prop('P20', 'The spectrum fit starts, evaluates and reports as configured',
     'The minimiser is given, for each parameter (or each illumination of '
     'one that differs between them), the start value, limits and fixed flag '
     'that were set at construction, by update, by a configuration file '
     '(only what it lists) or from the last fit; each illumination is '
     'evaluated with its own values (where it cannot be evaluated is never the '
     'best), and a saved configuration restores the fitter. Each charge in range is counted in its bin once, the results '
     'are reported by name, and the fitted curve has the area of the '
     'histogram.',
     ['inputs', 'configurations', 'histories'],
     'every start value, limit and flag, every charge, every fit result '
     'within the bounds',
     'Tests fit one spectrum; a mixed up parameter order or a stale lookup '
     'shows for certain combinations only.',
     ['core/spectrum_fitter.py'],
     [('bookkeeping of the parameters',
       'core/spectrum_fitter.py:SpectrumParameterCollection'),
      ('histogram, fit and results', 'core/spectrum_fitter.py:SpectrumFitter')],
     'iminuit is a recording stand-in; YAML delivers what was saved.')
prop('P21', 'Photoelectron spectra are crosstalk-Poisson Gaussian mixtures',
     'The SiPM spectrum is the sum over k of Gaussians at pedestal + k gain '
     'of variance pedestal sigma^2 + k gain sigma^2, weighted with the '
     'probability of k cells: j of them Poisson distributed, the others by '
     'crosstalk (MAPM: with the Poisson probability of k), apart from '
     'contributions of probability below 1e-4. The likelihood minimised is '
     '-2 log of the Poisson probability of the histograms, summed over the '
     'illuminations, each spectrum scaled to the area of its histogram.',
     ['inputs', 'configurations'],
     'every charge, pedestal and gain, illuminations and crosstalk in '
     'intervals, within the bounds',
     'Tests fit one spectrum; a wrong weight or width at high k changes it '
     'little.',
     ['spectrum_fitters/gentile.py', 'spectrum_fitters/mapm.py'],
     [('SiPM spectrum', 'spectrum_fitters/gentile.py:sipm_gentile_spe'),
      ('MAPM spectrum', 'spectrum_fitters/mapm.py:mapm_spe'),
      ('likelihood', 'spectrum_fitters/gentile.py:SiPMGentileFitter')],
     'exp and log are real functions axiomatised by their functional '
     'equations.')
prop('P22', 'Charge resolution and statistics do not depend on how they are added',
     'The charge resolution is the root mean square deviation from the true '
     'charge (with the Poisson variance added for simulations) relative to '
     'it, of the entries with a true charge; the charge statistics are mean, '
     'standard deviation and number of entries: per pixel and charge and for '
     'the camera, whatever pieces the entries come in and whenever they are '
     'amalgamated. The requirement, goal and Poisson curves follow their '
     'formulas, NaN beyond their range.',
     ['inputs', 'histories'],
     'every measured charge, every assignment to pixels and charges, every '
     'amalgamation schedule within the bounds',
     'No test covers it; amalgamation happens after 1 GB only.',
     ['utils/resolutions.py', 'plotting/resolutions.py'],
     [('accumulation', 'utils/resolutions.py:ChargeResolution, '
       'ChargeStatistics'),
      ('curves', 'plotting/resolutions.py:ChargeResolutionPlotter')],
     'Pandas is executed with symbolic values in object columns.')
prop('P23', 'Superpixel, module and grid mappings follow from the pixel mapping',
     'The superpixel and module mappings have one row per superpixel or '
     'module in order, at the mean position of its pixels, with its row and '
     'column, the counts of rows and columns and the size scaled, the '
     'further metadata kept and the pixel mapping unchanged. Rows and columns '
     'are the ranks of the coordinates of a grid, whatever the order of the '
     'pixels, missing corners and gaps between modules; the conversions to '
     'and from TargetCalib mappings keep every value.',
     ['inputs', 'configurations'],
     'every position, size, origin and gap within the bounds',
     'No test covers it.',
     ['utils/mapping.py'],
     [('superpixels and modules',
       'utils/mapping.py:get_superpixel_mapping, get_tm_mapping'),
      ('rows and columns', 'utils/mapping.py:get_row_column'),
      ('TargetCalib', 'utils/mapping.py:get_clp_mapping_from_tc_mapping')],
     'TargetCalib is a recording stand-in.')
prop('P24', 'Files sort by number; configurations and run lists are read as written',
     'File lists are sorted in place and returned in the order of the text '
     'and the integer values of the numbers in the names, each file once. '
     'The HV configuration of a superpixel is the value and switch of its '
     'last line, 0 without one; a run list has the path (run padded to five '
     'digits) and an opened reader of each of its runs.',
     ['inputs', 'configurations'],
     'every number in the names, every superpixel and value of each line, '
     'every run within the bounds',
     'No test covers it; the order of texts and of numbers differ for '
     'certain widths only.',
     ['utils/files.py'],
     [('natural order', 'utils/files.py:sort_file_list'),
      ('HV configuration', 'utils/files.py:extract_hv_cfg'),
      ('run lists', 'utils/files.py:open_runlist_r1, open_runlist_dl1')],
     'Numbers inside of texts are tokens standing for symbols; texts compare '
     'by their digits.')
prop('P25', 'A file is opened with the reader of its format',
     'WaveformReader.from_path opens a file starting with a simtel marker '
     '(after decompressing it, if it is gzipped) with the simtel reader, a '
     'FITS file whose header has an event header version with the TARGET '
     'reader, and no other file with either; the path and number of events '
     'reach the reader.',
     ['inputs'],
     'every value of the first four bytes and of five bytes at other places',
     'Tests need data files that are not available.',
     ['core/io/waveform.py', 'core/io/simtel.py', 'core/io/tio.py'],
     [('choice of the reader', 'core/io/waveform.py:from_path'),
      ('formats', 'core/io/simtel.py:is_compatible, '
       'core/io/tio.py:is_compatible')],
     'open, gzip, struct and the FITS header are stand-ins over symbolic '
     'bytes; the replay uses real files.')
prop('P26', 'The simtel reader delivers the pixels in the order of the camera',
     'Sample and photoelectron count of pixel i belong to the simulated pixel '
     'in the row and column of pixel i of the camera mapping, whatever order '
     'the simulation lists its pixels in and wherever they are; waveforms '
     'are flagged as calibrated. Event id, time, run, Monte Carlo truth, '
     'pointing and header are those of the event just read, by iteration or '
     'index from either end.',
     ['inputs', 'configurations', 'histories'],
     'every sample, count, id, time and header value, every origin and pitch '
     'of the pixels within the bounds',
     'Tests need simulation files that are not available.',
     ['core/io/simtel.py', 'utils/mapping.py'],
     [('reader', 'core/io/simtel.py:SimtelReader')],
     'ctapipe and target_calib are stand-ins that deliver arbitrary values.')
prop('P27', 'Each pixel keeps the spectrum fit of its own charges',
     'Extracting single-photoelectron spectra fits each pixel to its own '
     'charges of every file (one illumination per file, in their order), '
     'from the configured start values, and stores per pixel the values and errors by name, histogram and curve '
     'of that fit, however many processes work on it and whichever ends '
     'first, with the files, fitter, numbers of illuminations and pixels, '
     'start values and the mapping of the first file. A plotted spectrum '
     'shows these of the pixel asked for, each illumination with its own '
     'histogram, curve and light level.',
     ['inputs', 'configurations', 'schedules'],
     'every charge of every event and pixel, every order in which the '
     'pixels are finished',
     'No test covers the script; pixels, events and files have to be told '
     'apart in every cell of three tables.',
     ['scripts/extract_spe.py', 'plotting/spe.py'],
     [('fit of a pixel', 'scripts/extract_spe.py:PixelFitApplier'),
      ('tables', 'scripts/extract_spe.py:main'),
      ('plot', 'plotting/spe.py:SpectrumFitPlotter')],
     'The fit itself is P20 and P21; processes are modelled by the order in '
     'which the pixels are finished.')
prop('P28', 'Camera images show every value at its own pixel',
     'A camera image shows value i at the position (or row and column) of '
     'pixel i of the mapping, in the size of a pixel, for every image set '
     'after another; values that are not finite and the corners without '
     'pixels are left out, and an image of another size is refused. Text, '
     'highlighting (list, array or mask) and labels lie on the pixels they '
     'are given for, nothing else changes, and colour limits, once set, '
     'stay until they are reset, otherwise following each image.',
     ['inputs', 'configurations', 'histories'],
     'every image, position, size, selection of pixels, and every sequence '
     'of images, limits and resets within the bounds',
     'No test covers the plotting; a mismatch between pixels and patches is '
     'seen by no one unless it is looked for.',
     ['plotting/camera.py'],
     [('patches', 'plotting/camera.py:CameraImage'),
      ('rows and columns', 'plotting/camera.py:CameraImageImshow'),
      ('highlighting', 'plotting/camera.py:highlight_pixels')],
     'matplotlib is a recording stand-in.')
prop('P29', 'Waveform plots show every pixel in its own place',
     'The waveform plot of the modules gives every module axes at the place '
     'it has in the camera, with the waveform of each of its pixels once, in '
     'one colour per ASIC, the mean of the camera and the mean of the '
     'module, and lists exactly the pixels whose amplitude lies below the '
     'fraction asked for of the mean waveform\'s amplitude. The plot of the '
     'pixels has axes per pixel at its row and column, with its waveform, '
     'the mean of the camera, the range of all samples and a colour by '
     'amplitude; highlighting concerns the pixels asked for alone, until a '
     'reset restores the outlines of the modules.',
     ['inputs', 'configurations', 'histories'],
     'every set of waveforms within the bounds, every selection of pixels '
     'highlighted and reset',
     'No test covers the plots; pixels shown in another place look as good.',
     ['plotting/waveform.py'],
     [('modules', 'plotting/waveform.py:CameraTMWaveformPlotter'),
      ('pixels', 'plotting/waveform.py:CameraPixelWaveformPlotter')],
     'matplotlib is a recording stand-in.')
prop('P30', 'Plots of charge resolution and mean charge show the tables',
     'The points of a resolution plot are the resolutions of the pixel asked '
     'for, or of the camera, in order of true charge: charges in a common '
     'logarithmic bin are averaged, the error follows from the Poisson '
     'limit, charges too small to plot are left out; the relative plot '
     'divides by the requirement at the same charge. The mean plot shows '
     'measured over true charge in the same way, and the curves of '
     'requirement, goal and Poisson limit follow their formulae up to the '
     'charge where they end. The tables stay as they were.',
     ['inputs', 'configurations', 'histories'],
     'every resolution, mean and deviation in the tables, every sequence of '
     'pixels and camera within the bounds',
     'No test covers the plots; they read tables of pixels in any order.',
     ['plotting/resolutions.py'],
     [('resolution', 'plotting/resolutions.py:ChargeResolutionPlotter'),
      ('relative', 'plotting/resolutions.py:ChargeResolutionWRRPlotter'),
      ('means', 'plotting/resolutions.py:ChargeMeanPlotter')],
     'matplotlib is a recording stand-in.')
prop('P31', 'A reader describes the run and the camera of its file',
     'The TARGET readers report the run, the numbers of pixels, modules, '
     'superpixels per module and samples the file records, and version, '
     'number of cells, reference pulse and mapping of the camera version it '
     'was taken with - the mapping of a single module for files of one '
     'module, otherwise of the camera. The number of events is that of the '
     'file or the limit, whichever is less; the events left out at start and '
     'end are those asked for (2 and 1). Readers without slow control '
     'deliver NaN for it and a missing file is refused.',
     ['inputs', 'configurations'],
     'every description of a file within the bounds, every limit and number '
     'of events left out',
     'The tests of the readers need files and libraries that are missing; '
     'any two of these numbers can be exchanged unnoticed.',
     ['core/io/tio.py', 'core/io/waveform.py', 'utils/mapping.py'],
     [('reader', 'core/io/tio.py:TIOReader'),
      ('common interface', 'core/io/waveform.py:WaveformReader')],
     'The TARGET libraries are stand-ins.')
prop('P32', 'Monitor information in DL1 files is matched to the events',
     'A monitor column matched to the events has, for each row of the data, '
     'the entry of the monitor table that the row refers to, the table being '
     'the first of camera, modules and pixels that has the column, or the '
     'one asked for; as an array it has a row per reading and a column per '
     'device, and the average is per device. Unknown columns raise KeyError, '
     'files without monitor information AttributeError; tables of more than '
     '8 GB raise MemoryError unless forced, and are complete when read.',
     ['inputs', 'histories'],
     'every monitor value, every reference from events to readings, every '
     'recorded size within the bounds',
     'No test reads monitor information; columns of the same name in '
     'several tables and repeated references need every combination.',
     ['core/io/dl1_reader.py'],
     [('matching', 'core/io/dl1_reader.py:DL1Reader.'
       'get_matched_monitor_column'),
      ('tables', 'core/io/dl1_reader.py:DeprecatedMonitorReader')],
     'HDFStore is an in-memory stand-in.')
prop('P33', 'Pulses of a waveform are its non-negative least squares solution',
     'The pulses extracted from a waveform have no negative amplitude and are '
     'the least squares fit of the pulse model: pulses present leave no '
     'gradient, absent ones would improve the fit by no more than the '
     'tolerance. The charge of a pixel is the sum of its pulses, split into '
     'those within 5 ns of the mean event time of the pixels, the largest of '
     'which is delivered too, and the rest; pulses are counted and kept on '
     'request, and the waveforms do not change.',
     ['inputs', 'configurations'],
     'every waveform and tolerance for the pulse models within the bounds',
     'The active set method takes another route for almost every waveform; '
     'no test runs it.',
     ['waveform_reducers/nnls_pulse_extraction.py'],
     [('solver', 'waveform_reducers/nnls_pulse_extraction.py:nnls'),
      ('columns', 'waveform_reducers/nnls_pulse_extraction.py:'
       'NNLSPulseExtraction')],
     'numpy.linalg.lstsq is modelled by exact rational arithmetic.')
prop('P34', 'A generated configuration lists every column with its default',
     'The file written by generate_dl1_config configures every column of '
     'every reducer exactly once, below the name of its reducer, with its '
     'default in the chain or, without one, True; nothing else is '
     'configured. Unless bare, it holds the documentation of each reducer '
     'and column, whatever its shape, as comments only.',
     ['configurations', 'inputs'],
     'every default of the columns and every shape of documentation within '
     'the bounds',
     'No test generates a file, and only unusual documentation breaks it.',
     ['scripts/generate_dl1_config.py', 'core/chain.py', 'core/__init__.py'],
     [('generator', 'scripts/generate_dl1_config.py:main')])
prop('P35', 'Plots of single photoelectron fits show each pixel\'s own fit',
     'For every fitted parameter plot_spe draws an image of the camera with '
     'the value, and one with the error, of each pixel at the place of that '
     'pixel, and a histogram of the values of all pixels; for the pixel '
     'asked for it draws the spectra, curves, values, errors and start '
     'values of that pixel. This holds in whichever order the pixels were '
     'fitted; every plot goes to its own file, named after the parameter or '
     'pixel, in the directory given.',
     ['inputs', 'schedules'],
     'every charge, pixel and order of finishing fits within the bounds',
     'Pixels are mixed up only when parallel fits finish out of order.',
     ['scripts/plot_spe.py', 'scripts/extract_spe.py',
      'plotting/camera.py'],
     [('plots', 'scripts/plot_spe.py:main'),
      ('images', 'scripts/plot_spe.py:SPECamera')],
     'matplotlib is a recording stand-in, the fit of a pixel a function of '
     'its charges.')
prop('P36', 'A DL1 file is named after its run and never replaces its data',
     'extract_dl1 writes one DL1 file per input file, at the path given or '
     'else beside the data: RunN_r1.tio becomes RunN_dl1.h5 and '
     'RunN.simtel.gz becomes RunN_dl1.h5. Whatever the name and ending of '
     'the input file, the data are never overwritten. With several input '
     'files every one gets its own DL1 file, with the values and the '
     'metadata of its own run, read with the number of events asked for.',
     ['inputs', 'configurations'],
     'every run number, directory and ending within the bounds',
     'Only unusual names overwrite the data, and only later files mix runs.',
     ['scripts/extract_dl1.py'],
     [('names', 'scripts/extract_dl1.py:DL1Writer.write_dl1_file'),
      ('main', 'scripts/extract_dl1.py:main')],
     'HDFStore is an in-memory stand-in.')
#NEXT


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    na = {n['property'] for n in NOT_APPLICABLE}
    checks = [dict(
        property=p['id'], quick_cmd=f'./run.py {p["id"]} --tier quick',
        thorough_cmd=f'./run.py {p["id"]} --tier thorough',
        evidence_file=f'evidence/{p["id"]}.json',
        technique='symbolic execution of the real code, Z3 decides each path',
        level='model_checking',
        level_note='Every path of the code within the bounds stated in '
        f'checks/{p["id"]}.py is decided by Z3 over all values of its inputs; '
        'violations and sampled passing paths are replayed on the unmodified '
        'code. Trusted: Z3 and the numpy/pandas/numba models of symex/. '
        + NOTES[p['id']]) for p in PROPS if p['id'] not in na]
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1,
                       setup_cmd='./tools/setup.sh',
                       checks=checks, not_applicable=NOT_APPLICABLE), f,
                  indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
