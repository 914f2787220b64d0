"""The properties, in one place: writes properties.jsonl and MANIFEST.json (run with any Python 3)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

MODELS, UTILS = 'weatherlink/models.py', 'weatherlink/utils.py'
SERIAL, POLLER = 'weatherlink/serial.py', 'weatherlink/poller.py'
IMPORTER, DOWNLOADER = 'weatherlink/importer.py', 'weatherlink/downloader.py'
MYSQL, SCHEMA, WU = 'weatherlink/exporter/mysql.py', 'weatherlink/exporter/mysql.sql', 'weatherlink/exporter/wunderground.py'

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=(), state=()):
	P.append(dict(
		id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
		technique=technique, note=note, observe=list(observe), state=list(state),
	))


prop(
	'C01', 'WeatherLink timestamps order records and convert back to the same minute',
	'Every minute of the years 2000 to 2063 has its own WeatherLink timestamp, that of a later minute is greater, and '
	'converting a timestamp back gives the same minute. A value that is already a timestamp is passed through unchanged.',
	['inputs'], 'every date and time to the minute, and every pair of them',
	'Tests convert a handful of dates; order and round trip must hold for every pair of minutes (leap days, year ends, midnight).',
	[MODELS], [('bit-packed date and time', MODELS + ': convert_datetime_to_timestamp, convert_timestamp_to_datetime')],
	'round-trip and order monitor over an exhaustive day sweep',
	'All days of 64 years with hostile minutes, every minute of chosen days; the format itself is restated independently.')
prop(
	'C02', 'Downloaded archive records are decoded to exactly what the station measured',
	'Each 52-byte downloaded archive record decodes to the station\'s readings in exact decimal units, with None for '
	'exactly those sensors the console marked as absent, wind directions both by name and in degrees, rain both in clicks '
	'and inches, and the record\'s own date. A record of an unknown type, or one cut short, is refused, and an undated '
	'one is skipped as empty.',
	['inputs'], 'every content of a record: all raw values of every field, in combination',
	'Tests decode one recorded file; each of 19 fields has 256 or 65536 raw values with field-specific "absent" codes.',
	[MODELS], [('binary layout and per-field conversions', MODELS + ': ArchiveIntervalRecord.load_from_download')],
	'decoding monitor against an independent encoder, full value sweep per field',
	'Every raw value of every one- and two-byte field plus random combinations, on PyPy and CPython.')
prop(
	'C03', 'Importing a month file yields every record and daily summary of the month',
	'Importing a WeatherLink month file yields, for each day and in order, its daily summary and every archive record of '
	'that day, each decoded exactly (None for absent sensors, rain by the collector recorded with it) and dated to its '
	'minute, with days without data absent. A damaged or truncated file, or a file name without year and month, is '
	'refused rather than imported in part.',
	['inputs'], 'every month file: any set of days, number of records, content, and any truncation or type damage',
	'Tests import one file of one month from one station; layouts, collectors, dashes and damage vary without bound.',
	[IMPORTER, MODELS], [('day index walk', IMPORTER + ': Importer.import_data'),
						('record and summary layouts', MODELS + ': ArchiveIntervalRecord.load_from_wlk, DailySummary.load_from_wlk, Header')],
	'decoding monitor over generated month files against an independent file writer',
	'Contiguous, day-ordered files as WeatherLink writes them; truncation at arbitrary bytes.')
prop(
	'C04', 'Live packets are decoded to exactly what the console sent',
	'Each LOOP2 packet decodes to the console\'s readings in exact decimal units, with None for exactly the absent '
	'sensors, wind bearings also as the right compass point, rain clicks also as inches, and the barometric trend by '
	'name. It says truthfully whether its checksum matched, and a packet with broken framing is refused.',
	['inputs'], 'every content of a packet, all raw values of every field, every framing byte',
	'Tests decode 15 recorded packets from one afternoon.',
	[MODELS], [('packet layout, verification and conversions', MODELS + ': LoopRecord.load_loop_2_from_connection')],
	'decoding monitor against an independent encoder, full value sweep per field',
	'Every raw value of every field, every framing byte damaged, every single-bit checksum error.')
prop(
	'C05', 'The checksum detects corruption exactly as the console computes it',
	'The checksum of any data is the CRC-16 the console computes (polynomial 0x1021, start value 0), so that data '
	'followed by its own checksum yields zero and any corruption of at most 16 consecutive bits does not. It is the '
	'same for every kind of bytes object.',
	['inputs'], 'every byte string, every table entry, every burst of up to 16 bits',
	'Tests check a few packets; a wrong entry among 256 in the table shows only for data that reaches it.',
	[MODELS], [('table-driven CRC', MODELS + ': calculate_weatherlink_crc, WEATHERLINK_CRC_TABLE')],
	'differential monitor against a bit-by-bit CRC, burst injection',
	'All table entries reached, all bursts on sampled data.')
prop(
	'C06', 'An absent sensor never becomes a number on its way out',
	'A reading that the station marked as absent stays absent all the way: it is stored as NULL in the database, is left '
	'out of a Weather Underground upload, and nothing is derived from it. A reading that is present, zero included, is '
	'stored and uploaded as that number.',
	['inputs', 'configurations'], 'every subset of absent sensors, in records of a download, month file or live packet',
	'Tests export no record at all; the subsets of absent sensors and the three sources are far beyond samples.',
	[MODELS, MYSQL, WU, UTILS], [('dash handling', MODELS + ': *_ATTRIBUTE_MAP_*'), ('row building', MYSQL + ': export_record'),
								('query building', WU + ': _send_update')],
	'end-to-end taint monitor: absent sensors followed from raw bytes to SQL rows and URLs',
	'Both exporters on a recording database and HTTP layer.')
prop(
	'C07', 'A download returns exactly the records the service sent, or fails',
	'A download asks WeatherLink.com for the records after the given time with the account\'s own credentials, whatever '
	'characters they contain, first the headers, then the data. It returns the announced records in order, stops at the '
	'first undated one, and a response of an unexpected type or model, a compressed one, or one cut short raises an error '
	'instead of returning records.',
	['inputs', 'fault_sequences'], 'every credential, header block, response size, truncation point and response type',
	'No test runs a download: the service cannot be reached from tests.',
	[DOWNLOADER, MODELS], [('header and data requests', DOWNLOADER + ': Downloader.download'),
						('record loop', DOWNLOADER + ': _process_headers, _process_download')],
	'HTTP session monitor: the real requests stack over a simulated transport, with fault injection',
	'The transport adapter is replaced; everything above it is the real code.')
prop(
	'C08', 'Only a real acknowledgment lets a console command proceed',
	'A command to the console proceeds only after the ACK byte: NAK or "!" raises a not-acknowledged error, any other '
	'byte or a closed connection raises an invalid-acknowledgment error, and both are acknowledgment errors. After such '
	'an error nothing further is sent and no data is taken for a reply. Confirming takes its own byte only, and reading '
	'data takes at most the number of bytes asked for, in order, and more than one if they are there.',
	['inputs', 'fault_sequences'], 'all 256 reply bytes and a closed connection, for each command',
	'Tests feed a mock three byte values; none uses a real connection.',
	[SERIAL], [('acknowledgment check', SERIAL + ': SerialCommunicator.confirm_ack, _send_instruction')],
	'exhaustive reply-byte injection on a real TCP connection',
	'Exhaustive over reply bytes and commands.')
prop(
	'C09', 'A configuration setting read from the console is the console\'s own or an error',
	'Reading a setting returns exactly the bytes the console holds at that address, for every address and length and '
	'however the network slices the reply, with the checksum added only if asked for. A reply with a wrong checksum or '
	'one cut short is refused when checksums are confirmed, and the rain collector type is the masked setup bits.',
	['inputs', 'schedules', 'fault_sequences'], 'every address, length, memory content, fragmentation, corruption, cut',
	'Tests mock the socket with one reply in one piece.',
	[SERIAL], [('EEBRD exchange', SERIAL + ': ConfigurationSettingMixin.read_config_setting')],
	'protocol monitor on a simulated console with fragmentation and corruption',
	'A TCP console simulator stands in for the hardware.')
prop(
	'C10', 'A configuration setting written reaches the console intact or is not sent',
	'Writing a setting sends the address and length, and after the acknowledgment exactly the value followed by its '
	'checksum, so that the console then holds that value and nothing else changed. A value whose length differs from the '
	'stated one is refused before anything is sent.',
	['inputs', 'fault_sequences'], 'every address, length and value, acknowledged or not',
	'Tests mock the socket with one value.',
	[SERIAL], [('EEBWR exchange', SERIAL + ': ConfigurationSettingMixin.write_config_setting')],
	'protocol monitor: simulated console memory against a model',
	'The console\'s last acknowledgment is not read by the code and not claimed.')
prop(
	'C11', 'Connections open and close once, and none is leaked',
	'Connecting twice or disconnecting twice is refused with ValueError, a failed connection attempt leaves the '
	'communicator disconnected and usable again, and every socket opened is closed after disconnecting or leaving the '
	'context, also when an error ended it. An error inside the context is the one that comes out.',
	['histories', 'fault_sequences'], 'every sequence of connect, command, error and disconnect',
	'Tests call connect once on a mock; leaks and reuse need real sockets and histories.',
	[SERIAL], [('socket ownership', SERIAL + ': SerialIPCommunicator.connect, disconnect, __enter__, __exit__')],
	'lifecycle monitor: model of the connection state plus descriptor accounting',
	'Real loopback sockets.')
prop(
	'C12', 'Polling returns exactly the packets asked for, once each, in order',
	'Polling asks the console for the requested number of packets of the selected type and returns exactly that many, in '
	'the order sent, each decoded faithfully, however the network slices the stream and for one poll after another on a '
	'connection. A stream that ends early or loses its framing raises an error instead of returning fewer packets.',
	['inputs', 'schedules', 'fault_sequences'], 'every packet count and content, fragmentation and cut point',
	'Tests mock the socket file; fragmentation and truncation never occur there.',
	[POLLER, SERIAL, MODELS], [('receive loop', POLLER + ': Poller.poll, _receive_loop_packets')],
	'exactly-once and order monitor on a simulated console with fragmentation and cuts',
	'A TCP console simulator stands in for the hardware.')
prop(
	'C13', 'Background polling delivers each packet once and can be stopped and restarted',
	'Background polling hands every packet to the callback exactly once, in order, off the calling thread, and refuses a '
	'second start while running and a stop while not running. After a stop at most the packet in flight is still '
	'delivered and the console is told to cancel unless all packets were delivered (at once, when stopped by the '
	'callback); after it ended for any reason, '
	'failure to start and a raising callback included, it can be started again.',
	['schedules', 'histories', 'fault_sequences'], 'every interleaving of deliveries, stop and restart, and every failure',
	'Tests replace the thread by a mock and never run one.',
	[POLLER], [('stop event and worker thread', POLLER + ': start_background_polling, stop_background_polling, _poll_in_background')],
	'schedule-controlled trace monitor: exactly-once, order, cancel and state checks',
	'Interleavings are driven by a paced console and by injected delays, not enumerated.')
prop(
	'C14', 'Unit conversions are exact to their stated precision and invert each other',
	'Conversions between Fahrenheit, Celsius and Kelvin, inches of mercury and kilopascals or millibars, and miles per '
	'hour and meters per second equal the exact mathematical conversion rounded to the stated number of decimals, for '
	'integers and decimals alike. They are monotonic, and converting a temperature there and back returns it within that '
	'precision.',
	['inputs'], 'every representable reading in the physical range',
	'Tests convert a few values each.',
	[UTILS], [('decimal conversions', UTILS + ': convert_*')],
	'differential monitor against exact rational arithmetic',
	'Dense sweep of sensor-resolution values plus random decimals.')
prop(
	'C15', 'Wet bulb temperature and dew point follow their published formulas',
	'For every temperature, humidity and pressure a station can report, the wet bulb temperature and the dew point equal '
	'the published formulas to a tenth of a degree, for integers and decimals alike. The dew point never exceeds the air '
	'temperature and never falls when humidity rises.',
	['inputs'], 'temperatures -40 to 150 F, humidity 1 to 100 percent, pressure 25 to 33 inHg',
	'Tests check a few dozen chart values; the grid has millions.',
	[UTILS], [('formulas', UTILS + ': calculate_wet_bulb_temperature, calculate_dew_point')],
	'differential monitor against a high-precision reference, metamorphic relations',
	'A tenth of a degree of slack exactly at rounding boundaries.')
prop(
	'C16', 'Heat index follows the National Weather Service procedure everywhere',
	'For every temperature and humidity the heat index is None below 70 F and otherwise the National Weather Service '
	'procedure (simple formula, regression, and both adjustments, each in its own region) rounded up to a tenth of a '
	'degree.',
	['inputs'], 'temperatures 0 to 150 F in tenths and humidity 0 to 100 percent, all regions and their edges',
	'Tests use chart cells; region edges and both adjustments are barely touched.',
	[UTILS], [('piecewise formula', UTILS + ': calculate_heat_index')],
	'differential monitor against a reference, region coverage counted',
	'Region coverage is required: a run that misses a region is inconclusive.')
prop(
	'C17', 'Wind chill follows the National Weather Service formula and never warms',
	'For every temperature and wind speed the wind chill is None above 40 F, the air temperature without wind, and '
	'otherwise the National Weather Service formula rounded down to a tenth of a degree but never above the air '
	'temperature.',
	['inputs'], 'temperatures -60 to 60 F in tenths and wind speeds 0 to 150 mph in tenths',
	'Tests use chart cells; light wind, exact thresholds and zero degrees are not on the chart.',
	[UTILS], [('formula and cap', UTILS + ': calculate_wind_chill')],
	'differential monitor against a high-precision reference',
	'Dense sweep; both sides accepted exactly at a rounding boundary within 1e-9.')
prop(
	'C18', 'THW and THSW indexes follow their formulas',
	'The THW index is None below 70 F and otherwise the heat index less 1.072 times the wind speed (rounded up to a '
	'tenth); the THSW index equals the Australian apparent temperature formula to a tenth of a degree for all '
	'temperatures. More wind never raises either; more sun never lowers the THSW index.',
	['inputs'], 'temperature, humidity, radiation 0 to 1800 W/m2 and wind 0 to 150 mph',
	'Tests check a few points of a four-dimensional space.',
	[UTILS], [('formulas', UTILS + ': calculate_thw_index, calculate_thsw_index')],
	'differential monitor against a high-precision reference, metamorphic relations',
	'Slack exactly at rounding boundaries.')
prop(
	'C19', 'Degree days measure the distance from 65 degrees on the right side only',
	'For every daily average temperature, heating degree days are exactly the degrees below 65 F and cooling degree days '
	'exactly those above, each None on the other side and at 65.',
	['inputs'], 'every average temperature',
	'Tests check a few values.',
	[UTILS], [('thresholds', UTILS + ': calculate_heating_degree_days, calculate_cooling_degree_days')],
	'differential monitor against exact arithmetic', 'Dense sweep including the four-decimal averages of the database.')
prop(
	'C20', 'The 10-minute wind average is the true maximum over a day\'s records',
	'For any sequence of wind samples of 1 to 10 whole minutes each, the result is the greatest average over the latest ten '
	'sampled minutes at the end of some record, with the most frequent direction of that window and its first and last '
	'minute, the first such window winning. It is empty when a sample is longer than 10 minutes, when there are not ten '
	'minutes, or when there was no wind, and any iterable of rows will do.',
	['inputs', 'histories'], 'every sequence of speeds, directions, missing speeds and record lengths',
	'Tests run a few short fixed lists.',
	[UTILS], [('sliding windows', UTILS + ': calculate_10_minute_wind_average')],
	'differential monitor against a brute-force recomputation',
	'Generated days with mixed record lengths, ties, gaps and missing speeds.')
prop(
	'C21', 'Derived record values come only from present readings and respect their bounds',
	'For any record, each derived value (wind run, wet bulb, dew point, heat index, wind chill, THW, THSW) is present '
	'exactly when the readings it needs are present and applicable, is computed from that record\'s own readings, and '
	'satisfies low <= current <= high when the temperatures do. The record itself is not changed, and a reading of zero '
	'degrees counts as present.',
	['inputs'], 'every subset of present readings and every value, zero and negative included',
	'Tests cover a couple of complete records; 2^11 subsets exist.',
	[UTILS], [('combination of readings', UTILS + ': calculate_all_record_values')],
	'differential monitor against an independent recomputation over all subsets of readings',
	'All 2048 subsets of the eleven readings.')
prop(
	'C22', 'Exporting a record stores exactly one row that says what the record says',
	'Exporting a record commits one row with each reading in its own column, wind directions by compass name, the date '
	'parts, and the derived values, in the configured table and columns, leaving out columns configured not to be '
	'inserted. Values are passed as parameters, and a record already stored is refused by the database without a '
	'change.',
	['inputs', 'configurations'], 'every record and every table and column configuration',
	'No test exports to a database at all.',
	[MYSQL, SCHEMA], [('statement building', MYSQL + ': export_record'), ('unique key', SCHEMA)],
	'row monitor on a recording SQL engine that enforces the shipped schema',
	'A Python SQL engine stands in for MySQL; its types come from the shipped schema.')
prop(
	'C23', 'Station time is converted to UTC with the offset in force at that moment',
	'For every station time zone, given by name or as any tzinfo, and every local time, the stored UTC time and the '
	'uploaded UTC time are that local time less the zone\'s offset then in force (daylight saving and historic changes '
	'included). For an hour that occurs twice or never, one of the neighbouring offsets is used.',
	['inputs', 'configurations'], 'every zone and every date, transitions above all',
	'No test converts a time.',
	[UTILS, MYSQL, WU], [('localisation', UTILS + ': convert_station_time_to_utc')],
	'differential monitor against zoneinfo over all zones and their transitions',
	'Offsets are recomputed from the zone database by searching UTC instants.')
prop(
	'C24', 'Daily summaries state the true statistics of the day\'s records',
	'After recalculating, a day\'s summary holds the exact minimum, maximum, average and total of that day\'s archive '
	'records for every measured and derived quantity, the prevailing wind direction and that of the strongest gust, the '
	'best 10-minute wind average with its period, and the degree days. A quantity no record has is NULL.',
	['inputs', 'histories'], 'every set of archive records, with any readings absent',
	'No test computes a summary.',
	[MYSQL, SCHEMA], [('aggregate queries', MYSQL + ': _recalculate_daily_summary, _recalculate_summary_from_arguments')],
	'differential monitor: independent recomputation of every summary column',
	'SQL engine semantics (rounding, NULLs, strict types) follow MySQL documentation.')
prop(
	'C25', 'Each extreme carries the time it was first reached',
	'Every stored extreme of a daily, weekly, monthly or yearly summary that has a time carries the time of the first '
	'record of the period that reached it, zero degrees included. A wind, rain, sun or UV high of zero has no time.',
	['inputs', 'histories'], 'every set of records, with ties within and across days',
	'No test computes a summary; ties and zero need specific data.',
	[MYSQL], [('timestamp rules', MYSQL + ': TIMESTAMP_CALCULATION_RULES')],
	'differential monitor: first-occurrence recomputation for every timed extreme',
	'Data generated with many ties.')
prop(
	'C26', 'Weekly, monthly and yearly summaries aggregate exactly their own days',
	'Weekly (Monday to Sunday, across month and year ends), monthly and yearly summaries state the statistics of exactly '
	'the records of their period, the sum of its days\' degree days, the best of its days\' 10-minute wind averages, and '
	'the average wind run per day (for years also per week and month). Weekly summaries carry their first and last '
	'date.',
	['inputs', 'histories'], 'every distribution of records over days, period ends above all',
	'No test computes a summary.',
	[MYSQL], [('period clauses', MYSQL + ': _recalculate_weekly_summary, _recalculate_monthly_summary, _recalculate_yearly_summary')],
	'differential monitor: independent recomputation per period', 'Weeks across month and year ends, leap years.')
prop(
	'C27', 'Recalculating summaries is idempotent, order-independent and isolated',
	'Recalculating the same dates again, in another order or with duplicates leaves identical summaries and never a '
	'second row for a period, and records that arrive, change or are removed later are reflected by recalculating their date. Summaries of other periods, '
	'archive records and rain events are left untouched.',
	['histories', 'inputs'], 'every sequence of exports and recalculations',
	'No test recalculates twice.',
	[MYSQL, SCHEMA], [('find or insert, then update', MYSQL + ': _recalculate_summary_from_arguments, recalculate_summaries_for_dates')],
	'history monitor: table snapshots before and after', 'Random histories of export and recalculation.')
prop(
	'C28', 'Rain events partition the rain: none lost, none counted twice',
	'After a search, all recorded rain belongs to exactly one event: an event starts with rain, ends with its last rain '
	'once more than three hours of records without rain follow, and rain within three hours continues it. Its total, '
	'highest rate with the first time of it, and average rate over its rainy records are exact, and an event whose end '
	'is not certain yet has no end time.',
	['inputs', 'histories'], 'every rain history: gaps around three hours, events of any length',
	'No test looks for rain events.',
	[MYSQL], [('event scan', MYSQL + ': find_new_rain_events')],
	'conservation and segmentation monitor over generated rain histories',
	'Gaps at exactly three hours, one minute around; events longer than a page of records.')
prop(
	'C29', 'Rain events come out the same however often the search is run',
	'Searching after every few new records, in one run at the end, or again after an interruption yields the same events, '
	'and an ongoing event is completed rather than duplicated. The reported numbers of finished and ongoing events match '
	'what is stored.',
	['histories', 'crash_points'], 'every interleaving of arriving records and searches, with interruptions anywhere',
	'No test looks for rain events.',
	[MYSQL], [('resume from the last ended event', MYSQL + ': find_new_rain_events')],
	'batch versus incremental history monitor with crashes injected',
	'Crash before and after every statement of the interrupted run.')
prop(
	'C30', 'A database failure at any point leaves consistent, repeatable state',
	'Whichever statement or commit fails during an export, a recalculation or a rain event search, the original error '
	'comes out, no cursor stays open, and once rolled back the database holds only complete rows and events. Repeating '
	'the operation afterwards gives the same result as if nothing had failed.',
	['fault_sequences', 'crash_points'], 'a failure at each statement and commit of each operation',
	'No test talks to a database, let alone a failing one.',
	[MYSQL], [('cursor context manager and commit placement', MYSQL + ': _get_cursor, export_record')],
	'fault enumeration: each database call fails once, then the operation is repeated',
	'Enumerates every call of sampled operations.')
prop(
	'C31', 'A Weather Underground upload carries exactly the record\'s readings',
	'A simple update sends one request with the station\'s id and quoted password, the record\'s UTC time, and each '
	'present reading under its protocol name with its exact value, with a dew point from temperature and humidity when '
	'both are present. Absent readings are omitted, and any answer other than success raises an error.',
	['inputs', 'fault_sequences'], 'every record, password and response',
	'No test sends an update.',
	[WU], [('parameter maps', WU + ': send_simple_update, _send_update')],
	'HTTP request monitor: parsed URLs compared with the record', 'Simulated transport under the real requests stack.')
prop(
	'C32', 'Rapid updates report the latest gust and two-minute wind direction',
	'A rapid update sends each present reading of the packet under its protocol name, and with it the highest wind speed '
	'of the last minute (25 packets) with its direction, and the vector average of the wind directions of the last two '
	'minutes (49 packets). Older packets and archive records sent as simple updates with the same exporter never count, '
	'and directions around north average to north.',
	['histories', 'inputs'], 'every history of packets',
	'No test sends an update.',
	[WU], [('record queue and window functions', WU + ': send_rapid_update, _get_wind_gust, _get_2_minute_average_wind_direction')],
	'history monitor: window recomputation over packet sequences', 'Simulated transport; latest or first of equal gusts accepted as coded.')
prop(
	'C33', 'A repeated download and export neither loses nor duplicates records',
	'Downloading the records after the newest stored timestamp and exporting them, again and again and with interruptions '
	'anywhere, ends with every record of the station stored exactly once. The newest stored timestamp is that of the '
	'latest record, or None for an empty table.',
	['histories', 'crash_points', 'fault_sequences'], 'every sequence of arrivals, downloads, interruptions and retries',
	'No test connects the downloader to the exporter.',
	[DOWNLOADER, MYSQL, MODELS], [('watermark', MYSQL + ': get_newest_timestamp'), ('request timestamp', DOWNLOADER + ': download')],
	'exactly-once history monitor over a simulated service and database', 'Interruptions at every HTTP and SQL call.')
prop(
	'C34', 'Rain clicks convert exactly for every collector',
	'For every rain collector and number of clicks, inches and centimeters are the clicks times the size of one bucket '
	'tip, as decimals exact to twenty digits, and the two agree through the 0.393701 inches of a centimeter.',
	['inputs'], 'all collectors of both kinds and all click counts',
	'Tests convert a few clicks per collector.',
	[MODELS], [('per-collector conversions', MODELS + ': RainCollectorTypeSerial, RainCollectorTypeDatabase')],
	'exhaustive conversion monitor against exact arithmetic', 'All 65536 counts of the wire formats in the thorough tier.')
prop(
	'C35', 'Records read the same as attributes and as dictionaries, and copy faithfully',
	'For any sequence of reads and writes, a record\'s attributes and items agree, a missing one raises AttributeError or '
	'KeyError respectively and reads as absent through get, hasattr and getattr with a default. Copies and pickles are '
	'equal and independent of the original.',
	['histories', 'inputs'], 'every sequence of attribute and item operations',
	'Tests read attributes of loaded records only.',
	[MODELS], [('attribute access over a dictionary', MODELS + ': RecordDict')],
	'model-based history monitor', 'Random operation sequences against a plain dictionary.')
prop(
	'C36', 'The database connection is opened with the given settings and always closed',
	'The exporter connects with exactly the configured host, port, database and credentials, as a context manager closes '
	'that connection on leaving, also when an error ended the context, and that error comes out unmasked. Every cursor '
	'is closed after every operation, disconnecting twice is harmless, and it can connect again.',
	['histories', 'fault_sequences'], 'every sequence of connect, operation, error and disconnect, failures of close included',
	'No test opens a database connection.',
	[MYSQL], [('connection ownership', MYSQL + ': connect, disconnect, __enter__, __exit__, _get_cursor')],
	'lifecycle monitor: open connections and cursors counted', 'A recording driver stands in for MySQL.')
prop(
	'C37', 'Degrees and compass points agree for every bearing',
	'Every whole bearing from 1 to 360 degrees maps to the compass point in whose 22.5-degree sector it lies, every other '
	'whole number to None, and every compass point\'s own bearing (north being 360), rounded to a whole, maps back to it.',
	['inputs'], 'all bearings and all sixteen points',
	'Tests do not check the 360-entry table.',
	[MODELS], [('lookup table', MODELS + ': WindDirection.from_degrees, degrees')],
	'exhaustive monitor over all bearings', 'Exhaustive; either neighbour accepted within a degree of a sector edge.')
prop(
	'C38', 'Several stations side by side do not influence each other',
	'A program with several pollers, downloaders, importers and exporters for different stations gets from each exactly '
	'what it would get if that were the only one: same records, uploads, rows, settings and errors, whether it uses them in '
	'turn or each in its own thread. The calculations and record loaders give the same values in any order and thread.',
	['histories', 'schedules'], 'every interleaving of operations on several objects, in one or several threads',
	'Tests use one object at a time in one thread.',
	[DOWNLOADER, IMPORTER, POLLER, SERIAL, MODELS, UTILS, MYSQL, WU],
	[('state per object', POLLER + ': Poller.__init__'), ('state per object', WU + ': WundergroundExporter.__init__'),
		('state per object', MYSQL + ': MySQLExporter.__init__'), ('state per object', DOWNLOADER + ': Downloader.__init__')],
	'differential history monitor: alone, in turn and in parallel threads',
	'The run of each station alone is the oracle; thread schedules are sampled with very short switch intervals.')
prop(
	'C39', 'A long-running program keeps nothing it no longer needs',
	'Packets delivered by polling, records exported and those of earlier downloads and imports can be reclaimed as soon as '
	'the program drops them; the exporter of rapid updates keeps at most its window. Calculations keep nothing. Repeated '
	'connecting, polling and disconnecting leaves no additional threads, descriptors, cursors or connections.',
	['histories'], 'runs of any length',
	'Tests handle a handful of records and exit.',
	[POLLER, SERIAL, DOWNLOADER, IMPORTER, MYSQL, WU, UTILS],
	[('delivery to a callback', POLLER + ': Poller.poll, start_background_polling'), ('bounded window', WU + ': send_rapid_update'),
		('records of a download', DOWNLOADER + ': Downloader.download'), ('records of an import', IMPORTER + ': Importer.import_data'),
		('cursors', MYSQL + ': _get_cursor')],
	'resource monitor: weak references, threads, descriptors, cursors and traced memory over long runs',
	'Long here is hundreds of operations; any growth per operation is visible at that length.')
prop(
	'C40', 'Results depend on the inputs, not on the computer the program runs on',
	'Records, calculations, uploads, rows, settings and the refusal of damaged input are the same whatever the computer\'s '
	'time zone, clock, locale, hash seed, optimization level (-O, -OO), current directory and Python interpreter: only '
	'what was given to the library counts.',
	['inputs', 'configurations'], 'every input, in every environment of the process',
	'Tests run in one environment.',
	[MODELS, UTILS, DOWNLOADER, IMPORTER, POLLER, SERIAL, MYSQL, WU],
	[('station time', MODELS + ': convert_timestamp_to_datetime'), ('UTC time', UTILS + ': convert_station_time_to_utc'),
		('refusals', MODELS + ': load_from_wlk'), ('refusals', DOWNLOADER + ': Downloader.download')],
	'differential environment monitor: the same inputs in differing processes',
	'A plain process (UTC, fixed hash seed) and the oracles of the other checks decide; the clock is shifted on CPython only.')
prop(
	'C41', 'Using the library changes nothing but what it is asked to change',
	'No operation, failing ones included, alters the records, lists, maps or files handed to it (a rapid update adds the '
	'gust to its packet), the library\'s own tables, or the program around it: decimal context, environment, directory, '
	'time zone, timeouts, handlers, streams, other modules. It starts no process, writes no file, contacts only the '
	'configured services and prints at most a warning.',
	['histories', 'configurations'], 'every sequence of operations, successful and failing',
	'Tests look at results, not at what is around them.',
	[UTILS, MODELS, DOWNLOADER, IMPORTER, POLLER, SERIAL, MYSQL, WU],
	[('records read', UTILS + ': calculate_all_record_values'), ('records read', MYSQL + ': export_record'), ('records read', WU + ': _send_update'),
		('files read', IMPORTER + ': Importer.import_data'), ('defaults copied', MYSQL + ': archive_table_column_map')],
	'state-comparison monitor around every operation, and audit hooks',
	'PyPy reports fewer audit events; the snapshots are the same on both interpreters.')
prop(
	'C42', 'An interruption comes out unchanged, and what it interrupted can be done again',
	'KeyboardInterrupt, SystemExit or any other exception that is not an Exception, arriving while an operation waits for the console, the database, '
	'the web service or a file, or in a callback, comes out of the operation as it was, even if tidying up then fails. Files and cursors the operation '
	'opened are closed, leaving the context closes the connection, nothing is left half written, and the same object does the operation right afterwards.',
	['interruptions', 'histories'], 'every operation times every point where it waits',
	'Tests are never interrupted.',
	[SERIAL, POLLER, MYSQL, DOWNLOADER, IMPORTER, WU],
	[('files on connections', SERIAL + ': SerialIPCommunicator._get_file_handle'), ('cursors', MYSQL + ': MySQLExporter._get_cursor'),
		('starting', POLLER + ': Poller.start_background_polling'), ('files', IMPORTER + ': Importer.import_data')],
	'fault injection at every blocking call, with monitors of the outcome, of cursors, files and connections at the peer, and of a repetition',
	'A signal is taken to arrive in a blocking call, not between two instructions.')
prop(
	'C43', 'Whatever comes from outside, an operation ends after proportionate work',
	'Garbage, damaged, cut or endless input from a console, a web service, a file or the database ends every operation in a result or an ordinary '
	'exception, after a number of steps and an amount of memory in proportion to the input and to what was asked for, whatever counts the input '
	'announces. No more records come out than complete ones came in, and the same object handles good input right afterwards.',
	['inputs'], 'every sequence of bytes',
	'Tests feed well-formed samples.',
	[MODELS, DOWNLOADER, IMPORTER, POLLER, SERIAL, MYSQL, WU],
	[('packets', POLLER + ': Poller._receive_loop_packets'), ('announced records', DOWNLOADER + ': Downloader._process_download'),
		('announced days', IMPORTER + ': Importer.import_data'), ('settings', SERIAL + ': ConfigurationSettingMixin.read_config_setting'),
		('rain events', MYSQL + ': MySQLExporter.find_new_rain_events')],
	'mutational fuzzing under a step counter, a memory monitor and monitors of the outcome and of later operations',
	'Steps are lines of the library itself; loops within one call of an interpreter are seen by the memory monitor (CPython) and the time limit.')

prop(
	'C44', 'Credentials reach only the service they belong to',
	'The passwords and the API token given to a downloader or an exporter leave the library only as the parameters for them in requests to '
	'weatherlink.com (encrypted, and with the receiver verified) or to Weather Underground, and in the database login (never in clear). They are in no '
	'error the library raises, nothing it prints, logs, stores or leaves behind, no text form of its objects, no request to a host it is redirected '
	'to, and no request or connection of another account, whatever succeeds or fails.',
	['inputs', 'histories'], 'every sequence of operations of several accounts, and every failure of a service',
	'Tests look at the result of an operation, not at everything else that carries data out of it.',
	[DOWNLOADER, WU, MYSQL],
	[('download requests', DOWNLOADER + ': Downloader.download'), ('upload requests', WU + ': WundergroundExporter._send_update'),
		('database login', MYSQL + ': MySQLExporter.connect')],
	'taint monitoring: random markers as credentials, searched for in every request, packet, error, output, log, text, table and file',
	'What requests and the database client do with credentials on the wire below the simulated transport is not seen.')


def main():
	built, pending = [], []
	for p in P:
		path = os.path.join(HERE, 'wlmon', 'checks', p['id'].lower() + '.py')
		(built if os.path.exists(path) else pending).append(p)
	with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
		for p in P:
			assert len(p['title']) <= 80, p['id']
			f.write(json.dumps({
				'id': p['id'], 'title': p['title'], 'statement': p['statement'],
				'quantifier': {'over': p['over'], 'text': p['text']},
				'why_tests_cant': p['why'],
				'anchors': {
					'files': p['files'],
					'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
					'observe_at': p['observe'] or [w for _, w in p['mechanism']],
					'hook_needed': None,
				},
			}, ensure_ascii=False) + '\n')
	checks = []
	for p in built:
		level = importlib.import_module('wlmon.checks.' + p['id'].lower()).CHECK.level
		checks.append({
			'property': p['id'],
			'quick_cmd': './check.sh ' + p['id'],
			'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + p['id'],
			'evidence_file': 'evidence/%s.json' % p['id'],
			'technique': 'runtime monitoring: ' + p['technique'],
			'level': level,
			'level_note': p['note'],
		})
	manifest = {
		'version': 1,
		'setup_cmd': './setup.sh',
		'checks': checks,
		'not_applicable': [{'property': p['id'], 'reason': 'its check is still being built'} for p in pending],
		'notes': 'No hooks in /repo are needed: the monitors replace the network transport, the database driver and the '
				'console from outside. See DESIGN.md.',
	}
	with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
		json.dump(manifest, f, indent=1)
		f.write('\n')
	print('%d claimed, %d pending' % (len(built), len(pending)))


if __name__ == '__main__':
	main()
