"""Writes properties.jsonl and MANIFEST.json from the tables below (python3 mk.py)."""
import json
import os

P = []
CH = {}
NA = []


def prop(id, title, statement, over, text, why, files, state=(), mech=(), observe=(), level='model_checking', note='', technique=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': list(files),
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                          'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'observe_at': list(observe), 'hook_needed': None}})
    CH[id] = (level, note, technique or 'TLA+ specification checked with TLC; TLC-generated and random histories replayed on the code, recorded traces validated by TLC')


def na(id, reason):
    NA.append({'property': id, 'reason': reason})
    del CH[id]


HANDLER = ['simim/_handlers.py', 'simim/siminterface/simhandler.py', 'simim/galprops/galprops.py']
prop('H01', 'Properties in memory, on file and in the listing never disagree',
     'Whatever sequence of loading, unloading, creating, overwriting, writing, deleting and reading of halo properties a user performs on a catalogue, with any active subset at each step, every property a later call returns has exactly the values last given to those halos, in the place it was last stored. '
     'The listings of what is loaded, saved and available name exactly the properties that can be read, and a call that is refused leaves values, listings and the file as they were, but for the names in its list it had already dealt with.',
     ['histories', 'inputs'], 'every sequence of load/unload/make/overwrite/write/delete/select operations, with any subset of halos active at each step',
     'The tests make one or two properties on one fixture; what goes wrong here depends on the order of operations (delete after write, write with a subset active, overwrite of an unloaded property), of which there are unboundedly many.',
     HANDLER,
     [('loaded properties', 'what is held in memory and its units', 'simim/_handlers.py:Handler.properties_loaded'),
      ('saved properties', 'what is in the HDF5 group and its units', 'simim/_handlers.py:Handler.properties_saved')],
     [('load/unload/make/write/delete', 'simim/_handlers.py:Handler')],
     ['Handler.return_property', 'Handler.properties_all', 'HDF5 file'],
     note='Exhaustive on the specification for up to 3 halos and 3 properties; the code is bound by replaying transition-covering walks of TLC\'s state graph and random histories on real HDF5 files.')
prop('H02', 'Selections compose and reach exactly the halos asked for',
     'After any sequence of selections on position, mass, arbitrary conditions and indices, and of resets, the active halos are exactly those of the whole catalogue that satisfy every selection since the last reset, in catalogue order. '
     'Everything read or computed with the active set concerns these halos alone and everything read for all halos concerns all of them, aligned row by row.',
     ['histories', 'inputs'], 'every sequence of selections, resets, reads and property changes',
     'Tests set one selection and look at a count; composition of selections with each other, with property changes and with re-evaluation of conditions is a matter of histories.',
     HANDLER, [('active set', 'indices of the active halos', 'simim/_handlers.py:Handler.inds_active')],
     [('set_property_range / set_index', 'simim/_handlers.py'), ('return_property(use_all_inds)', 'simim/_handlers.py')],
     ['Handler.return_property', 'Handler.nhalos_active'],
     note='As H01, with the selection operations.')
prop('H03', 'Little-h conversions are applied once and in the right direction',
     'In either unit convention, every property - stored, computed by formula, created by the user or added through a property definition - is returned, tested against ranges and handed to user functions in the convention chosen, with the power of h belonging to that property. '
     'Reading, writing and re-reading a property never changes what it stands for.',
     ['histories', 'inputs', 'configurations'], 'both conventions, all powers of h, every history of make/write/load/select operations',
     'Tests compare single conversions; an extra or missing factor in one path (written from memory, evaluated with several outputs, selected on) shows only in combinations of operation and convention.',
     HANDLER, [('unit strings and h powers', 'per property', 'simim/_handlers.py')],
     [('unit conversion on input and output', 'simim/_handlers.py:Handler'), ('MultiProp/Prop.evaluate', 'simim/galprops/galprops.py')],
     ['Handler.return_property', 'Handler.set_property_range', 'Prop.evaluate'],
     note='As H01, values tracked exactly with h = 1/2 in both conventions.')
prop('H04', 'Plots and histograms of a catalogue show the values asked for',
     'A plot shows, for every property named, the values of the active halos (or of all, or both, as asked) against those of the other property, row by row, and a histogram counts every such value once, in its bin - in the unit convention asked for and with the logarithm taken when asked. '
     'Drawing changes neither the catalogue nor the settings the caller passed in, and unknown properties are refused.',
     ['histories', 'inputs'], 'every sequence of selections and changes followed by any plot or histogram, in both conventions',
     'The tests do not look at what is drawn; which halos, which units and what was changed by an earlier picture depend on the history.',
     HANDLER, [('active set, default units', 'what is drawn', 'simim/_handlers.py:Handler')],
     [('Handler.plot', 'simim/_handlers.py'), ('Handler.hist', 'simim/_handlers.py')],
     ['figures'], note='As H01; the data of the artists on the axes of the figure are compared with the model, figures are not rendered.')
prop('S01', 'Changes through the simulation reach every snapshot, natives excepted',
     'Creating, writing or deleting a property through a whole simulation does so in every formatted snapshot with that snapshot\'s own halos and redshift, whether or not snapshots are held open, and snapshots opened before and after see it alike. '
     'The properties a catalogue was formatted with can never be overwritten or deleted this way, and a request that fails leaves the snapshots it had not reached as they were.',
     ['histories', 'configurations'], 'every sequence of simulation-wide and per-snapshot operations over catalogues of any number of snapshots, opened lazily or at once',
     'Tests use a one-to-three-snapshot box and a single operation; partial application over snapshots and interplay of cached snapshot objects need histories.',
     ['simim/siminterface/simhandler.py', 'simim/_handlers.py'],
     [('snapshot objects', 'cache of opened snapshots', 'simim/siminterface/simhandler.py:SimHandler')],
     [('SimHandler.make_property/delete_property', 'simim/siminterface/simhandler.py'), ('guard of native keys', 'simim/siminterface/simhandler.py')],
     ['SnapHandler.return_property', 'HDF5 file'],
     note='Specification exhaustive for 2 snapshots; histories replayed on formatted HDF5 catalogues of 1-3 snapshots.')
prop('S02', 'A redshift is answered with the snapshot whose range contains it',
     'For every catalogue and every redshift within the range the catalogue covers, looking the redshift up gives the one snapshot whose redshift range contains it, whatever number type or array shape is asked. '
     'Redshifts no snapshot covers are refused and never answered with some other snapshot.',
     ['inputs', 'configurations'], 'all redshifts, including the edges of ranges, and all sets of formatted snapshots',
     'Tests look up a handful of interior redshifts in one catalogue; edges, gaps and single-snapshot catalogues are not sampled.',
     ['simim/siminterface/simhandler.py'], [], [('z_to_snap', 'simim/siminterface/simhandler.py:SimHandler.z_to_snap')],
     ['SimHandler.z_to_snap', 'SimHandler.get_snap_from_z'],
     note='Every lookup at and around every edge of random catalogues is decided by the specification.')
prop('S03', 'The mass shortcut never hides a halo above the mass asked for',
     'For every catalogue, minimum mass and unit convention, the leading part of the mass-ordered catalogue that is read for that minimum contains every halo at or above it.',
     ['inputs', 'configurations'], 'all catalogues (ties, one or no halo), all minimum masses around each tabulated threshold, both unit conventions',
     'Tests ask for one or two masses in one catalogue.',
     ['simim/siminterface/simhandler.py', 'simim/siminterface/_rawsiminterface.py'], [('mass threshold table', 'threshold and first index below it', 'formatted file')],
     [('get_mass_index', 'simim/siminterface/simhandler.py:SnapHandler.get_mass_index')], ['SnapHandler.get_mass_index'],
     note='Every threshold of random catalogues is probed below, at and above.')
DATA = ['simim/siminterface/_rawsiminterface.py', 'simim/siminterface/universemachine.py', 'simim/siminterface/illustris.py', 'simim/siminterface/uchuu.py']
prop('D01', 'Where data are stored is remembered exactly',
     'After any sequence of set-ups and of registering and using simulation data under any directory a user may name, the location looked up for a simulation is the one last registered for it, and no other simulation\'s changes. '
     'A refused or abandoned set-up, or one that finds an earlier one, loses nothing registered before.',
     ['histories', 'inputs'], 'every sequence of set-up, register and look-up with arbitrary directory names and answers to prompts',
     'Tests use one fixed directory; names with spaces, repeated set-up and interrupted answers are not sampled.',
     ['simim/_paths.py', 'simim/__init__.py', 'simim/siminterface/_rawsiminterface.py'],
     [('root file and path registry', 'persistent text files', 'simim/_paths.py')], [('_SimIMPaths', 'simim/_paths.py')],
     ['simim.setupsimim', '_SimIMPaths'],
     note='Specification exhaustive over 2 roots and 2 simulations; replayed on real files below a scratch directory.')
prop('D02', 'Downloads fetch what is missing, and only whole files count as present',
     'Whatever files are already there and whatever requests fail part way, a download asks the archive for exactly the chosen snapshots\' files that are not completely there - all of them when told to download again - and stores each under the name of its snapshot. '
     'A file left by an interrupted transfer is never afterwards taken for data.',
     ['fault_sequences', 'histories', 'inputs'], 'every set of present files, choice of snapshots and point of failure',
     'There is no network in the tests; failures and restarts are never exercised.',
     DATA, [('raw directory', 'files present', 'simulation data directory')], [('download', 'simim/siminterface/universemachine.py'), ('download', 'simim/siminterface/uchuu.py')],
     ['requested URLs', 'raw directory'],
     note='Specification exhaustive on small directories with failure at every transfer; code run in forked unprivileged children with a scripted archive.')
prop('D03', 'Formatted catalogues hold each raw halo once, with converted columns aligned',
     'For every raw catalogue of a supported simulation - of any number of files and halos - the formatted snapshot has every valid raw halo exactly once, heaviest first, with every advertised column converted by its documented factor and all columns of a row from the same halo. '
     'Units and powers of h match the conversion, and the table of mass thresholds agrees with the masses.',
     ['inputs', 'configurations'], 'all raw tables (numbers of halos from none, ties in mass, flagged entries, positions outside the box, splits over files) of all supported formats',
     'Tests format the one bundled text sample; the other formats, empty files, ties and edge positions are never run.',
     DATA, [('formatted snapshot', 'HDF5 group', 'data.hdf5')], [('loaders', 'simim/siminterface/*.py:_loader'), ('format', 'simim/siminterface/_rawsiminterface.py:SimCatalogs.format')],
     ['HDF5 file'],
     note='The conversion table of every format is in the specification; random raw tables are formatted by the code and judged by TLC.')
prop('D04', 'Formatting adds only complete snapshots and keeps those already there',
     'After any sequence of formatting runs with any choices of snapshots, flags and raw files present, including runs that fail, the formatted file lists exactly the snapshots whose data it fully holds. '
     'Snapshots formatted before and not chosen again keep their content, including properties users added.',
     ['histories', 'fault_sequences'], 'every sequence of formatting runs with missing, unreadable or complete raw data',
     'Tests format once, successfully.',
     DATA, [('formatted file', 'data.hdf5', 'simulation data directory')], [('format', 'simim/siminterface/_rawsiminterface.py:SimCatalogs.format')],
     ['HDF5 file', 'SimHandler.extract_snaps'],
     note='Specification exhaustive on small histories; the code run on real files with faults injected through the raw data.')
prop('D05', 'Snapshot metadata tile cosmic time in step with the archive\'s listing',
     'For every archive listing, in any order, and every choice of snapshots, each snapshot\'s redshift is the one of its own file and the recorded redshift ranges are contiguous from the earliest chosen snapshot to the present with boundaries half way in time between neighbours. '
     'Times, redshifts and distances recorded for a boundary agree in the simulation\'s cosmology, and existing metadata change only on request.',
     ['inputs', 'configurations', 'histories'], 'all listings, orders and choices of snapshots, for every supported archive',
     'Tests only build metadata for the bundled three-snapshot sample.',
     DATA, [('snapshot table', 'meta_snaps.npy', 'simulation data directory')], [('download_meta', 'simim/siminterface/*.py'), ('Snapshot', 'simim/siminterface/_rawsiminterface.py:Snapshot')],
     ['meta.npy', 'meta_snaps.npy'],
     note='Bins exhaustive on abstract listings; scripted listings for nine simulations run through the code; ages and distances from astropy as trusted reference.')
prop('D06', 'Clean-up of raw data removes that simulation\'s raw files only',
     'Clearing up while formatting removes the raw files of a snapshot only once that snapshot is completely in the formatted file; a final clean-up removes the raw data of that simulation alone, and both only after the user agreed (unless the question was switched off). '
     'Whatever characters directory names contain, formatted data, metadata and other files are never touched.',
     ['histories', 'inputs', 'configurations'], 'every directory content, path name and choice of snapshots and flags',
     'Tests delete nothing; the harm of a wrong deletion is irreversible.',
     DATA, [('raw directory', 'files present', 'simulation data directory')], [('clean_raw', 'simim/siminterface/_rawsiminterface.py'), ('format(realtime_clean_raw)', 'simim/siminterface/_rawsiminterface.py')],
     ['file system'],
     note='Run as an unprivileged user in scratch directories with decoy files; the whole tree is compared.')

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mk_more.py')).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mk_more.py')) else None

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
M = {'version': 1, 'setup_cmd': 'true',
     'checks': [{'property': k, 'quick_cmd': './run.sh %s quick' % k, 'thorough_cmd': './run.sh %s thorough' % k,
                 'evidence_file': 'evidence/%s.json' % k, 'technique': v[2], 'level': v[0], 'level_note': v[1]} for k, v in CH.items()],
     'not_applicable': NA,
     'notes': 'TLA+ specifications in spec/, drivers in harness/. No hooks in /repo are needed.'}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(M, f, indent=1)
    f.write('\n')
