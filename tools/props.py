""" The properties and how they are decided; tools/make.py writes properties.jsonl and MANIFEST.json. """
MC = 'model_checking'
FE = 'fault_enumeration'
NOT_APPLICABLE = []
PROPS = []


def prop(pid, title, statement, over, quantifier, why, files, mechanism, observe, technique, level, note):
    PROPS.append({'id': pid, 'title': title, 'statement': statement, 'over': over, 'quantifier': quantifier,
                  'why': why, 'files': files, 'mechanism': mechanism, 'observe': observe,
                  'technique': technique, 'level': level, 'note': note})


CORE = 'pyulog/core.py'
DB = 'pyulog/db.py'

prop('C01', 'Loading a well-formed log reports exactly its content',
     'Loading a well-formed log reports exactly what it contains: time stamps, information and '
     'multi-information values, initial, changed and default parameters, formats, dropouts, logged strings '
     'and, for every topic instance, each sample in file order with its exact value. This holds for every '
     'order in which messages are interleaved, every size and count the format allows, every boundary value '
     'and every kind of input (path or file object). Datasets are found by topic name and instance, and '
     'asking for one that is not there raises an error.',
     ['inputs', 'histories'],
     'For all sequences of messages that form a valid log, all values and sizes of their fields.',
     'The tests load five recorded logs and compare a printed summary; they never see most message types, '
     'orders, sizes or boundary values.',
     [CORE], [('message loop of the definitions and data sections', 'ULog._read_file_definitions, _read_file_data'),
              ('message classes', 'ULog._MessageInfo, _MessageData, MessageLogging, ...'),
              ('final conversion', 'ULog.Data, ULog._finalize_data')],
     ['public properties of ULog', 'ULog.get_dataset'],
     'explicit-state exploration of a ULog reader model, every path replayed on the real loader', MC,
     'Exhaustive within the stated alphabets and depths; trusts the independent encoder and the reference '
     'model written from the format description.')

prop('C02', 'Dataset columns follow the logged format byte for byte',
     'The columns of a dataset follow the logged format: nested types and arrays are expanded in declaration '
     'order under dotted and indexed names, and every column holds exactly the bytes of its own field with '
     'its own type, also when formats are declared in any order or nested several levels deep. Trailing '
     'padding is no column, and a sample may come with or without it. A sample of any other size is not '
     'used and marks the log as corrupt; samples before and after it are unaffected.',
     ['inputs'],
     'For all formats built from basic types, arrays and nested types, and all sample sizes.',
     'Tests only see the formats of the recorded logs; layout errors show only for particular mixes of '
     'nesting, arrays and padding.',
     [CORE], [('expansion of formats into columns', 'ULog._MessageAddLogged'),
              ('structured decoding of samples', 'ULog.Data, ULog._MessageData')],
     ['ULog.data_list: names, types, values', 'ULog.file_corruption'],
     'exhaustive enumeration of formats up to a nesting/field bound, each log loaded by the real code and '
     'compared with an independent layout model', MC,
     'Complete for the enumerated format grammar; nesting depth and number of fields are bounded.')

prop('C03', 'A log cut off at any byte loads everything complete before the cut',
     'A log that ends after any number of its bytes (as after power loss) never makes loading fail, and '
     'loading reports exactly the messages that are complete before the cut. Only a file without a whole, '
     'correct header is refused, with a TypeError. This holds for a cut within the definitions as well as in '
     'the data section, for full, filtered and header-only loads.',
     ['inputs', 'crash_points'],
     'For every log and every length to which it may be truncated.',
     'Tests load complete logs (and one with appended data); the cut may fall on any byte of any message.',
     [CORE], [('handling of short reads', 'ULog._read_file_definitions, ULog._read_file_data')],
     ['ULog(...) on the cut file'],
     'exhaustive enumeration of every truncation point of a set of logs, compared with the model of the '
     'complete messages', FE,
     'Every byte position of logs that together hold every message type; other logs only by induction.')

prop('C04', 'Damage in the data section costs only what it destroys',
     'Damaged bytes in the data section never make loading fail, and everything logged before the damage is '
     'reported. Damage within a data or other logged message that leaves its size and type intact costs at most that '
     'message, and a sample dropped for its size or unknown topic marks the log as corrupt. After a stretch '
     'that is noticed as damage (type zero, or an unknown type with size zero or above 10000 bytes) everything '
     'after the next sync marker is reported exactly once, and the log is marked as corrupt.',
     ['inputs', 'crash_points'],
     'For every position, length and content of a damaged stretch.',
     'No test contains a damaged log; recovery depends on position, content and what follows.',
     [CORE], [('corruption detection and sync search', 'ULog._check_packet_corruption, ULog._find_sync'),
              ('handling of malformed messages', 'ULog._read_file_data')],
     ['ULog(...) on the damaged file', 'ULog.file_corruption'],
     'exhaustive enumeration of damage positions x contents x lengths over small logs, compared with a '
     'recovery model', FE,
     'Byte values and stretch lengths are enumerated from a fixed set; damage to subscriptions and '
     'definitions is only required not to disturb what precedes it.')

prop('C05', 'Unknown messages and compatible extensions change nothing',
     'Messages of an unknown type (up to 10000 bytes, without a sync marker), unknown compatible flags, newer format '
     'versions, a longer flags message and information or parameters of an unknown value type do not change '
     'anything else that is loaded, and do not mark the log as corrupt. A log with an unknown incompatible '
     'flag is refused by every kind of load.',
     ['inputs', 'configurations'],
     'For every unknown type, flag bit, version and every place they may occur.',
     'The recorded logs contain no unknown messages or flags.',
     [CORE], [('message dispatch', 'ULog._read_file_definitions, ULog._read_file_data'),
              ('flag bits', 'ULog._MessageFlagBits')],
     ['ULog(...)', 'ULog.has_data_appended', 'ULog(...) raising ValueError or NotImplementedError'],
     'exhaustive enumeration of extensions x positions, compared with the same log without them', MC,
     'All 256 type bytes, all flag bits; base logs are fixed.')

prop('C06', 'Appended data is loaded completely, in order and once',
     'Data appended to a log after its end (crash dumps; up to three appended stretches named in the flags '
     'message) is loaded completely, in order and exactly once, after the main part. This holds if the main '
     'part ends within a message, if the appended data belongs to topics that already have samples or '
     'subscribes new ones, and if damage precedes it.',
     ['inputs', 'crash_points'],
     'For every number and size of appended stretches and every cut of the main part.',
     'One recorded log with appended data exists, and its test file is missing here; a torn tail is '
     'never tested.',
     [CORE], [('appended offsets', 'ULog._load_file, ULog._read_file_data(read_until)')],
     ['ULog.data_list', 'ULog.logged_messages', 'ULog.has_data_appended'],
     'exhaustive enumeration of appended layouts x cuts of the main part, compared with the model', MC,
     'One to three offsets; every cut of the last messages of the main part.')

prop('C07', 'Writing a log and loading it again preserves its content',
     'A log written after loading is a well-formed log: subscriptions come before their data, and messages are '
     'ordered by time. Loading it again gives the same content (samples, formats, parameters and their '
     'changes, default parameters, information, logged strings, dropouts, compatible flags), and the object '
     'that was written is unchanged.',
     ['inputs', 'histories'],
     'For every log the loader accepts.',
     'Tests write back the recorded logs only; value types, multi-instances and message kinds they do not '
     'contain are never written.',
     [CORE], [('writing', 'ULog.write_ulog and the _make_* methods')],
     ['ULog.write_ulog', 'ULog(...) on the written file', 'independent parse of the written bytes'],
     'explicit-state exploration of logs; every log is written, parsed independently, loaded and compared', MC,
     'Exhaustive within the alphabet and depth; one recorded finding (log without any data).')

prop('C08', 'A filtered load is the full load restricted to the filter',
     'Loading with a list of topic names gives exactly the datasets of a full load with these names, with the '
     'same samples, and everything else of the log (parameters, information, logged strings, dropouts) '
     'unchanged. Names that are not in the log are ignored, and an empty list gives no datasets.',
     ['inputs', 'configurations'],
     'For every log and every set of names.',
     'Tests use one filter on one log.',
     [CORE], [('message_name_filter_list', 'ULog.__init__, ULog._MessageAddLogged handling')],
     ['ULog(file, filter)'],
     'exhaustive exploration of logs x filter subsets, compared with the projection of the full load', MC,
     'All subsets of the topic names, in logs up to the stated depth.')

prop('C09', 'A header-only load reports the definitions only',
     'A header-only load reports exactly the definitions section: formats, information, initial and default '
     'parameters, and the start time of the file. It is unaffected by whatever follows the definitions, be it '
     'data, damage or nothing at all. Like a full load, it closes the file it was given.',
     ['inputs', 'configurations'],
     'For every definitions section and everything that may follow it.',
     'Tests do not use header-only loading with damaged or truncated data.',
     [CORE], [('parse_header_only', 'ULog.__init__, ULog._load_file')],
     ['ULog(file, parse_header_only=True)'],
     'exhaustive enumeration of definitions x continuations, compared with the model', MC,
     'Complete for the enumerated definitions and continuations.')

prop('C10', 'Two logs are equal exactly if their content is the same',
     'Comparing two logs is an equivalence: a log equals itself loaded twice, and comparison is symmetric. '
     'Logs that differ in any sample, name, parameter, information, logged string, dropout or flag are '
     'unequal; the order of definitions, of subscriptions, and how samples of different topics interleave '
     'make no difference. The same holds for a log loaded from a database, and for the single datasets '
     '(by name, instance, message id, fields, their types and values), logged strings, dropouts and formats.',
     ['inputs'],
     'For all pairs of logs.',
     'Tests compare a few pairs of recorded logs.',
     [CORE, DB], [('comparison', 'ULog.__eq__, ULog.Data.__eq__, MessageLogging.__eq__')],
     ['==, != on ULog and DatabaseULog objects'],
     'exhaustive enumeration of single-point variations and reorderings of logs, all pairs compared', MC,
     'All pairs of the enumerated variants.')

prop('C11', 'A log loaded from the database is the log that was saved',
     'A log saved to a database and loaded back (at once, on demand or one dataset at a time; from a path or '
     'a file object at any position) has the same content, names, types and SHA-256 sum as the file. The '
     'optional JSON form of each column maps every time stamp to its value, with non-finite values as null. '
     'Saving does not change the object that is saved.',
     ['inputs', 'configurations'],
     'For every log and every way of saving and loading.',
     'Tests save one log and compare a few attributes.',
     [DB], [('saving', 'DatabaseULog.save'), ('loading', 'DatabaseULog.load, get_dataset'),
            ('hash of the file', 'DatabaseULog.calc_sha256sum')],
     ['DatabaseULog.save/load', 'rows of the JSON table'],
     'explicit-state exploration of logs; every log saved, loaded in every mode and compared', MC,
     'Exhaustive within the alphabet and depth; two recorded findings (numeric multi-information, '
     'corruption flag).')

prop('C12', 'Loading from the database on demand never changes the answer',
     'Whatever the order and options of accesses (by name, instance, cached or not, lazy or not, reloads), a '
     'log from the database gives the same data as the file. A cached dataset is returned as the same object, '
     'an uncached one as a new one; looking at metadata loads no data; loading again replaces and never '
     'duplicates content; asking for a missing dataset raises an error. Writing is refused with a ValueError '
     'while data is still to be loaded.',
     ['histories', 'configurations'],
     'For every sequence of accesses on one object.',
     'Tests exercise one access at a time; caching errors need sequences.',
     [DB], [('lazy loading and caching', 'DatabaseULog.get_dataset, DatabaseULog.data_list, load'),
            ('write guard', 'DatabaseULog.write_ulog')],
     ['DatabaseULog public methods'],
     'exhaustive exploration of all operation sequences up to a depth on the real objects, against a '
     'reference state machine', MC,
     'All sequences up to the stated depth over the operation alphabet.')

prop('C13', 'The database holds exactly the logs saved and not deleted',
     'After any sequence of saves and deletes the database holds exactly the logs that were saved and not '
     'deleted, each found by its key and by its SHA-256 sum, and no rows of any other log in any table. The same file '
     'cannot be stored twice: the attempt raises KeyError, changes nothing, and gives the object the existing key. '
     'Primary keys are never reused.',
     ['histories'],
     'For every sequence of saves, deletes and look-ups over several logs.',
     'Tests do one save and one delete.',
     [DB], [('save/delete', 'DatabaseULog.save, DatabaseULog.delete'),
            ('look-ups', 'DatabaseULog.exists_in_db, primary_key_from_sha256sum'),
            ('cascades', 'pyulog/sql/*.sql')],
     ['DatabaseULog public methods', 'content of all tables'],
     'exhaustive exploration of all operation sequences up to a depth on the real database, against a '
     'set model', MC,
     'All sequences up to the stated depth over three logs.')

prop('C14', 'Saving or deleting a log is all or nothing',
     'Saving or deleting a log takes effect completely or not at all, whatever file operation fails, whatever '
     'lock is held, whatever value cannot be saved and wherever the process dies. After a failed save the '
     'database is as before, the object has no key, and the save can be repeated successfully.',
     ['crash_points', 'histories'],
     'For every failing file operation and every crash point, with any subset of unsynced writes lost.',
     'Tests never inject failures or crashes.',
     [DB], [('transactions', 'DatabaseULog.save, DatabaseULog._insert, DatabaseULog.delete')],
     ['database file after the fault, opened by a fresh process image'],
     'fault enumeration: every SQLite file operation fails once, every crash point with torn-write patterns '
     'is replayed on the real code', FE,
     'Crash model: unsynced writes are lost as prefixes, all-or-none and single writes; SQLite itself is '
     'trusted only through its VFS calls.')

prop('C15', 'Concurrent saves, deletes and loads each take effect at one moment',
     'When several connections save, delete and load at the same time, each operation takes effect at one '
     'moment: a loaded log is seen whole or not at all, one of two savers of the same file wins and the '
     'other is told that it exists, and no operation fails just because of a lock held for a moment.',
     ['schedules'],
     'For every interleaving of the database operations of several threads or processes.',
     'Tests are single threaded.',
     [DB], [('transactions', 'DatabaseULog.save, delete, load, get_dataset')],
     ['results of the concurrent calls', 'final database'],
     'stateless exploration of all interleavings up to a preemption bound at SQLite lock transitions of the '
     'real code', MC,
     'Two threads: preemption bound 3 (thorough 4), three threads: 1 (thorough 2); switches only at lock '
     'transitions.')

prop('C16', 'Migration preserves every stored log',
     'Migrating a database from any released schema version, in one step or several, gives the current schema '
     'and preserves every log in it. Repeating a migration or doing a dry run changes nothing. A database that '
     'is older than the code is refused with a ValueError on access, an unversioned one is migrated only if '
     'forced, and a missing or malformed migration file is not applied.',
     ['histories', 'configurations'],
     'For every starting version, every path of steps and every content.',
     'Tests migrate empty databases.',
     [DB, 'pyulog/migrate_db.py', 'pyulog/sql'],
     [('migration', 'pyulog/migrate_db.py: migrate_db'), ('scripts', 'pyulog/sql/pyulog.*.sql'),
      ('version check', 'DatabaseULog.__init__, SCHEMA_VERSION')],
     ['pyulog.migrate_db', 'DatabaseULog on the migrated database'],
     'explicit-state exploration: all starting versions x step paths x contents, compared with a fresh '
     'database', MC,
     'All paths over the released versions; frozen copies of the released scripts build the old databases.')

prop('C17', 'An interrupted migration leaves a database that can be migrated',
     'If a migration is interrupted at any point (a failing file operation or the death of the process) the '
     'database is exactly at one of the schema versions with all its logs, and migrating again completes to '
     'the same result as an uninterrupted migration.',
     ['crash_points'],
     'For every failing file operation and crash point during a migration.',
     'Tests never interrupt a migration.',
     ['pyulog/migrate_db.py', 'pyulog/sql', DB],
     [('migration transaction', 'pyulog/migrate_db.py: migrate_db'), ('scripts', 'pyulog/sql/pyulog.*.sql')],
     ['database file after the fault', 'a second migration'],
     'fault enumeration over every SQLite file operation and crash point of real migrations', FE,
     'Same crash model as C14; one process migrates at a time (C31 is about several).')

EXP = 'exhaustive enumeration of logs x options on the real code, every output compared with a reference model'

prop('C18', 'CSV export holds every sample with its exact value',
     'Converting a log to CSV writes one file per instance of each chosen topic, named '
     '<prefix>_<topic>_<instance>.csv (slashes in the topic replaced by underscores): a header with the time stamp '
     'first and then the fields in logged order, and one row for every sample whose time lies in the chosen '
     'window, start <= t < end in seconds (no bound or 0 means unlimited). '
     'Every cell reads back as the exact value logged, char arrays as text up to the first NUL, and rows stay '
     'unambiguous when a text contains the delimiter, quotes or line breaks. It holds for every delimiter and '
     'output folder, from Python and from the command line.',
     ['inputs', 'configurations'],
     'For all logs, values, topic choices, time windows and delimiters.',
     'No test compares a single CSV cell; boundary values, windows at the edges and odd strings need enumeration.',
     ['pyulog/ulog2csv.py'], [('conversion', 'pyulog/ulog2csv.py: convert_ulog2csv, main')],
     ['files written by convert_ulog2csv and ulog2csv'],
     EXP, MC, 'Complete over the stated values, windows, names and options; files are read back with the csv module.')

prop('C19', 'Extracting a topic returns its samples in the window as records',
     'Extracting a topic returns exactly the samples of its first instance whose time lies in the chosen window, '
     'start <= t < end in seconds, as records with the time stamp first and exact values and types. A topic name '
     'that is no string or not in the log raises AttributeError, also if it contains or is contained in the '
     'name of another topic.',
     ['inputs', 'configurations'],
     'For all logs, topic names and windows.',
     'One test samples a single topic of a recorded log.',
     ['pyulog/extract_message.py'], [('extraction', 'pyulog/extract_message.py: extract_message')],
     ['result of extract_message'],
     EXP, MC, 'Complete over the stated topics, windows and values.')

prop('C20', 'Parameter export is complete, sorted and exact',
     'Exporting parameters as csv, octave or qgc lists every initial parameter exactly once, sorted by name, with '
     'its exact value, followed by its later changes in logged order (with their time stamps if asked for). Only '
     'initial values are listed with -i, and with -d exactly the system or current-setup defaults, which is refused '
     'if the log has none. QGroundControl files give type 9 to floats and 6 to integers.',
     ['inputs', 'configurations'],
     'For all sets and histories of parameters and all options.',
     'No test looks at the exported text for changed or default parameters.',
     ['pyulog/params.py'], [('export', 'pyulog/params.py: main')],
     ['standard output or the output file of ulog_params'],
     EXP, MC, 'Complete over the stated parameter histories and options; -t together with -i or -d is not enumerated.')

prop('C21', 'The info summary tells the truth about the log',
     'The info command reports corruption, start time and duration, number, sum, maximum and mean of dropouts, '
     'the software version by release type, the information messages sorted by name (performance counters only '
     'when verbose) and, per topic instance, message size, count and total bytes, as they follow from the '
     'content of the log. Asked for one multi-information message it prints its parts completely and in order: '
     'text, bytes in hex, or numbers.',
     ['inputs', 'configurations'],
     'For all logs and options.',
     'Tests compare the output for the recorded logs only.',
     ['pyulog/info.py', CORE], [('summary', 'pyulog/info.py: show_info, main'),
                                ('version text', 'ULog.get_version_info_str')],
     ['standard output of ulog_info', 'ULog.get_version_info_str'],
     EXP, MC, 'Complete over the stated dropouts, durations, versions and messages.')

prop('C22', 'GPS dump writes exactly the bytes exchanged with each receiver',
     'Extracting GPS communication writes, per receiver instance and per direction (the top bit of the length '
     'tells it), a file with exactly the logged bytes in logged order, of the first instance of the topic. Logs without such data produce no '
     'files, and logs with another format of the dump end with an error status.',
     ['inputs'],
     'For all sequences of dump messages of any length, direction and instance.',
     'There is no test of it.',
     ['pyulog/extract_gps_dump.py'], [('extraction', 'pyulog/extract_gps_dump.py: main')],
     ['files written by ulog_extract_gps_dump'],
     EXP, MC, 'Complete over the stated sequences; one topic instance, lengths within the array.')

prop('C23', 'The KML track shows every position with a fix and its flight mode',
     'Converting to KML yields, per log, the positions with a fix in order, spaced by more than the minimum interval, '
     'scaled from the logged integers and with the altitude offset added. The track is split into lines, one per '
     'stretch of a flight mode, named and coloured by the mode, each continuing at the point where the mode changed, '
     'for every flight mode. Camera triggers become points, and a missing position topic raises KeyError.',
     ['inputs', 'histories'],
     'For all sequences of positions and mode changes and all options.',
     'There is no test of it.',
     ['pyulog/ulog2kml.py'], [('conversion', 'pyulog/ulog2kml.py: convert_ulog2kml, _kml_add_position_data')],
     ['the KML file'],
     EXP, MC, 'Complete over the stated sequences; the XML writer (simplekml) is trusted.')

prop('C24', 'Messages and events are shown once, in time order',
     'Listing messages shows every logged string and every event of the default group exactly once and in '
     'time order, with its level. In PX4 logs strings that are duplicates of events (ending in a tab) are left '
     'out, and events without a definition are shown by their id. Definitions contained in a log are used for that log '
     'only; others come from the given source and are kept.',
     ['inputs', 'histories'],
     'For all sequences of strings and events and all sequences of logs handled by one object.',
     'Tests compare the output for recorded logs only, without events.',
     ['pyulog/messages.py', 'pyulog/px4_events.py', CORE],
     [('listing', 'pyulog/messages.py: main'), ('events', 'PX4Events.get_logged_events')],
     ['standard output of ulog_messages', 'PX4Events.get_logged_events'],
     EXP, MC, 'The event parser (libevents) is replaced by a stand-in.')

prop('C25', 'The ROS2 bag holds every sample of every convertible topic',
     'Converting to a ROS2 bag writes every sample of every convertible topic exactly once, under the name of '
     'its topic (with an instance suffix only where needed), with the right message type, the time in '
     'nanoseconds and exact values. A topic whose message type is unknown, composed or has other fields is left '
     'out as a whole.',
     ['inputs'],
     'For all sets of topics, instances, formats and values.',
     'ROS2 is not available where the tests run.',
     ['pyulog/ulog2ros2bag.py'], [('conversion', 'pyulog/ulog2ros2bag.py: convert_ulog2ros2bag, ros2_msg_from_ulg_topic, calc_msgtype')],
     ['calls made to the bag writer'],
     EXP, MC, 'ROS2 (rosbag2_py, rclpy, px4_msgs) is replaced by recording stand-ins.')

prop('C26', 'Value changes list the first sample and every change',
     'Listing the changes of a field returns the first sample that has a time stamp and then every sample '
     'whose value differs from the sample before it, each with its own time stamp, in order. Samples with a '
     'time stamp of zero are ignored, and the data is not modified.',
     ['histories'],
     'For all sequences of values and time stamps.',
     'There is no test of it.',
     [CORE], [('list of changes', 'ULog.Data.list_value_changes')],
     ['ULog.Data.list_value_changes'],
     'exhaustive enumeration of all value and time stamp sequences up to a length on the real code', MC,
     'All sequences up to the stated length over a small alphabet; NaN values are left open.')

prop('C27', 'Logs are independent of each other',
     'What loading, writing or converting a log gives depends only on that log and the arguments, not on which '
     'logs the process has handled or changed before, nor on what other threads are doing at the same time. In '
     'particular strict parsing of strings in one load is not influenced by other loads.',
     ['schedules', 'histories'],
     'For all sequences of operations in one process and all interleavings of operations on different logs.',
     'Tests handle one log per process step and use one thread.',
     [CORE, DB], [('class-level state', 'pyulog/core.py: ULog, string parsing'),
                  ('database objects', 'DatabaseULog')],
     ['results of operations on separate objects'],
     'stateless exploration of thread interleavings at source-line granularity up to a preemption bound, and '
     'of all operation sequences, on the real code', MC,
     'Two threads, preemption bound 1 (thorough: 2 for pairs, three threads); switches at source lines of pyulog.')

prop('C28', 'PX4 helpers give attitude, versions and modes that match the log',
     'The roll, pitch and yaw added to attitude data describe the same rotation as the logged quaternion for '
     'every attitude, including straight up and down, and leave existing columns unchanged. The estimator, '
     'vehicle and input names, and the level names of logged strings, follow from the logged values as PX4 '
     'defines them.',
     ['inputs'],
     'For all attitudes and all values of the parameters involved.',
     'There is no test of it.',
     ['pyulog/px4.py', CORE], [('helpers', 'pyulog/px4.py: PX4ULog'), ('levels', 'ULog.MessageLogging.log_level_str')],
     ['PX4ULog methods', 'ULog.MessageLogging.log_level_str'],
     'exhaustive enumeration of a grid of attitudes (with all singular ones) and of all parameter values, '
     'compared with an independent model', MC,
     'Attitudes on a grid that contains the singularities and their neighbours; comparison as rotation matrices.')

prop('C29', 'Invalid text is dropped or refused, as asked',
     'Text in a log that is not valid UTF-8 costs a tolerant load only the invalid bytes: everything else, '
     'including the rest of that text, is reported as if those bytes were not there. A strict load raises '
     'UnicodeDecodeError for exactly the logs with such text in the part it reads. The command line tools and '
     'exports are strict unless told to ignore invalid text, and that option changes nothing for valid logs.',
     ['inputs', 'configurations'],
     'For all byte sequences in every kind of text (names, keys, values, strings), wherever it stands.',
     'The tests only load logs with plain ASCII text.',
     [CORE, 'pyulog/info.py', 'pyulog/messages.py', 'pyulog/params.py', 'pyulog/ulog2csv.py', 'pyulog/ulog2kml.py',
      'pyulog/extract_gps_dump.py', 'pyulog/extract_message.py'],
     [('decoding', 'ULog.parse_string and its callers'), ('options', 'main of the tools')],
     ['ULog(..., disable_str_exceptions)', 'tools with and without their ignore option'],
     EXP, MC, 'Complete over the stated byte sequences, positions, kinds of text and ways of loading.')

prop('C30', 'Any bytes after a valid header load, and nothing is invented',
     'Loading ends for any content of a file. Without a valid header it raises TypeError, and as long as the '
     'definitions are intact it succeeds, whatever bytes follow and whatever offsets of appended data are stated. '
     'Everything that is reported is in the file as a message with exactly that content.',
     ['inputs'],
     'For all byte strings.',
     'Tests load valid logs only; parsers hang or fail on particular combinations of a few bytes.',
     [CORE], [('message loop and resynchronisation', 'ULog._read_file_definitions, _read_file_data, _find_sync'),
              ('message classes', 'ULog._MessageInfo, MessageFormat, _MessageAddLogged, ...')],
     ['ULog(file) returns or raises', 'public properties of ULog'],
     'exhaustive enumeration of byte strings and arbitrary messages in every context of a log on the real '
     'loader, with a scan of the file as oracle', MC,
     'Complete over the stated alphabets and lengths; a load that takes over a minute counts as not ending.')

prop('C31', 'Migrations of a database that run at the same time have the effect of one',
     'When several processes migrate the same database at the same time, or use it meanwhile, every migration '
     'script is applied exactly once, in order: afterwards the database is exactly that of a single migration, '
     'with every log in it. Every call returns, or reports that the database is locked or (while another process '
     'creates it) not to be migrated; who reads from it meanwhile gets a whole log or an error.',
     ['schedules'],
     'For every interleaving of the database operations of the processes, from every schema version.',
     'Tests are single threaded.',
     ['pyulog/migrate_db.py', 'pyulog/sql', DB],
     [('migration transaction', 'pyulog/migrate_db.py: migrate_db'), ('version check', 'DatabaseULog.__init__, SCHEMA_VERSION')],
     ['results of the concurrent calls', 'final database'],
     'stateless exploration of all interleavings up to a preemption bound at SQLite lock transitions and looks at '
     'the file, of the real code', MC,
     'Two threads: preemption bound 1 or 2 (thorough 2 or 3), three threads: 1 (thorough 2); switches only at lock '
     'transitions and when the file is looked at.')

prop('C32', 'Reading never changes a log, and tools write their own output and nothing else',
     'Whatever is in a log and whether it can be loaded or not: loading it, storing it in a database, inspecting or '
     'converting it leaves the file (or buffer) as it is, and also every other file that was there. A tool creates '
     'only its own output: the console tools for information and messages none, parameters only the named file, CSV files '
     '<prefix>_*.csv in the output directory (which is created if it is missing), the GPS dump its two files '
     'in the working or output directory, KML the named file (track.kml). No name in a log leads out of it.',
     ['inputs', 'configurations'],
     'For every content of the log (names in particular), every option and every way to name the file.',
     'Tests look at the wanted output of valid logs only, and never at what else is in the directory.',
     [CORE, DB, 'pyulog/ulog2csv.py', 'pyulog/ulog2kml.py', 'pyulog/params.py', 'pyulog/info.py', 'pyulog/messages.py',
      'pyulog/extract_gps_dump.py', 'pyulog/extract_message.py'],
     [('opening the log', 'ULog._load_file, DatabaseULog.calc_sha256sum'), ('output names', 'main of the tools, convert_ulog2csv')],
     ['the directory tree before and after'],
     'exhaustive enumeration of tools, options, kinds of logs and names on the real code, with a comparison of the '
     'whole directory tree', MC,
     'Complete over the stated tools, options, logs and names; outputs named explicitly are other files than the input.')
