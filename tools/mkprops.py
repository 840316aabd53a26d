"""Writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R, D, I, F = 'src/arinc424/record.py', 'src/arinc424/decoder.py', 'src/arinc424/__init__.py', 'src/arinc424/definitions'
P = []


def p(id, title, statement, over, text, why, files, mech, note):
  P.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
             'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}, note))


p('C01', 'A line is accepted exactly when it is a well-formed record',
  'Reading a line succeeds exactly when, without surrounding whitespace, it is 132 characters long, begins with S or T, ends in nine ASCII digits, '
  'has the section code of a supported record type in columns 5-6 (or else in columns 5 and 13), and, for types with a continuation record number, has one of 0-9 and A-Z there. '
  'A continuation record (number 2-9, A-Z) is accepted only with an application type its record type supports, and so is an enroute airways restriction record of any number. Every other line is rejected with False.',
  ['inputs'], 'every line of 0 to 140 characters over ASCII and representatives of all other Unicode character classes, with whitespace around',
  'the tests read some fifty well-formed lines and almost no malformed one; acceptance is decided by the combination of ten columns, length and character classes',
  [R, F], [('validation and routing', R + ':Record.validate, Record.read'), ('application types', F + '/*.py: read')],
  'all lines within the length bounds, all columns symbolic')
p('C02', 'The section code alone decides the record type',
  'An accepted line is read as the record type that its section code names: columns 5-6 if they spell a supported section, else columns 5 and 13. '
  'The record has exactly the fields of that type (and, for continuation records, of its application type), whatever the other columns hold.',
  ['inputs'], 'every line of 132 characters, all columns free',
  'the tests see one or two sample lines per section; a collision between the two places of the section code needs particular combinations of columns 5, 6 and 13',
  [R, F], [('routing', R + ':records, Record.read')], 'all 132-character lines')
p('C03', 'Primary record fields are verbatim column slices',
  'For every record type, each field of a primary record has the exact characters of the columns that ARINC 424 assigns to it, under its own name, in column order: nothing trimmed, shifted, changed, omitted or repeated. '
  'This holds for every content of every column, spaces included.',
  ['inputs'], 'every primary record line of every record type, all columns free',
  'an off-by-one slice shows only when the neighbouring column differs, and the sample records leave most optional columns blank',
  [F, R], [('layouts', F + '/*.py: read_primary')], 'all lines of each of the 45 primary layouts')
p('C04', 'Continuation record fields are verbatim column slices',
  'For every record type and application type, each field of a continuation record has the exact characters of the columns that the record layout assigns to it, under its own name, in order: nothing trimmed, shifted, changed, omitted or repeated.',
  ['inputs'], 'every continuation record line of every record type and application type, all columns free',
  'most continuation layouts are not read by any test, and those that are have mostly blank columns',
  [F, R], [('layouts', F + '/*.py: read_cont and relatives')], 'all lines of each of the 81 continuation layouts')
p('C05', 'What a field shows depends on its own columns only',
  'Two records of the same record type that hold the same characters in a field show the same value and the same decoded meaning for that field (or both fail to decode it), whatever all their other columns hold.',
  ['inputs', 'programs'], 'all pairs of lines of one record type that agree in one field, for each field of each layout',
  'it relates two runs; a test has one line at a time',
  [D, F], [('field decoding', D + ':Field.decode and field_*')], 'all pairs of lines, two symbolic lines per query')
p('C06', 'JSON output holds every field, unchanged',
  'The JSON text of a record is one object with one member per field, whose key is the field name and whose value is the exact text of the field: parsed back, it gives every field unchanged, for any characters. '
  'The single-line form keeps the order of the fields, the multi-line form sorts the keys; the text returned is what is printed when output is asked for, and nothing is printed otherwise.',
  ['inputs', 'configurations'], 'every line of every layout, both forms, output on and off',
  'two fields of the same name silently overwrite each other, and characters that need escaping do not occur in the samples',
  [R], [('JSON', R + ':Record.json')], 'all lines of each layout')
p('C07', 'The decoded table has one faithful row per field',
  'Decoding a record gives a table with one row per field in layout order: the name of the field, its value in single quotes, and its meaning. '
  'The table returned is the one printed when output is asked for (the default), nothing is printed otherwise, and decoding again gives the same table.',
  ['inputs', 'configurations'], 'every line of every layout whose coded fields are decodable; output on, off and default',
  'the tests compare no table', [R, D], [('table', R + ':Record.decode')], 'free-text columns symbolic, coded fields at one decodable value each')
p('C08', 'Primary and continuation status follow the continuation number',
  'A record that was read reports being primary exactly when its continuation record number is 0 or 1 or its type has no such number; it reports that continuations follow exactly when the number is 1. '
  'An object that holds no record reports neither.',
  ['inputs'], 'every line of 132 characters, accepted or not',
  'the tests ask this of a few records', [R], [('status', R + ':Record.primary, Record.hasCont')], 'all 132-character lines')
p('C09', 'An object holds the last line read and nothing else',
  'After any sequence of reads, a record object shows the fields, status and JSON of the last line exactly as a new object would, and is empty if that line was rejected. '
  'Objects do not influence each other.',
  ['histories', 'inputs'], 'histories of reads (accepted and rejected) over one and two objects', 'the tests read one line per object',
  [R, F], [('state', R + ':Record.reset, Record.read'), ('shared layout objects', R + ':records')],
  'histories of three reads and a second object; lines symbolic')
p('C10', 'Reading any text returns True or False and never fails',
  'Reading any line of text, of any length and content, returns True or False; it never raises an exception, ends the process or hangs. '
  'Afterwards the status queries and the JSON output work, and so does decoding if the line was rejected.',
  ['inputs'], 'every text of 0 to 140 (thorough: 200) characters', 'crashes hide behind unusual lengths and characters',
  [R, F], [('read', R + ':Record.read'), ('layouts', F + '/*.py')], 'all lines within the length bounds')
p('C11', 'Decoding fails only with ValueError, and never on a blank field',
  'Decoding any field of any accepted record either gives something to show or raises ValueError; no other exception, no missing value and no end of the process. '
  'A field that is all spaces never raises, except the mandatory IFR capability indicator.',
  ['inputs'], 'every value of every field of every layout', 'the samples hold well-formed values only',
  [D], [('decoders', D + ':field_*')], 'all values of each field with all other columns free')
p('C12', 'Coded fields show the meaning of their code',
  'For every coded field and every value it can hold, the decoded text is the meaning that the code tables of the standard, as documented in the library, give for it '
  '(record type, area, section, route type, path terminator, waypoint type and description, usage, airspace, time and many more). A value outside the table is shown as unknown or unsupported, shown as it is, or refused with ValueError, always the same way for the same field.',
  ['inputs'], 'every value of every coded field of every layout', 'the tests check a handful of codes out of several hundred',
  [D], [('code tables', D + ':field_002 ... field_270')], 'all values, against an independent copy of the tables')
p('C13', 'Numeric fields show the right quantity and unit',
  'For every field that holds a quantity (altitudes, elevations, frequencies, courses, distances, times, variations, speeds, time zones, cycle dates), well-formed digits decode to the number they stand for, with the scale and unit of the field and no digit lost; '
  'blank and non-numeric entries are shown as they are, marked bad, or refused with ValueError.',
  ['inputs'], 'every value of every numeric field of every layout', 'scaling and leading-zero errors show for particular digits only',
  [D], [('numbers', D + ':field_026 ... field_269')], 'all values of each field, exact decimal arithmetic')
p('C14', 'Text fields are shown verbatim',
  'Fields that hold names, identifiers, coordinates and notes decode to their exact text. Only the fields documented to be split, labelled, trimmed or validated (route and procedure identifiers, sequence numbers, recommended navaid data, names) differ, in exactly that way.',
  ['inputs'], 'every value of every text field of every layout', 'trimming or normalising shows only for values with particular characters',
  [D], [('text', D + ':field_*')], 'all values of each field')
p('C15', 'Search prints exactly the matching records',
  'Searching a file prints, in file order and once each, exactly those records that contain the given text (or every text of a given list) as it is, then how many there were. Lines that are not records are never printed or counted.',
  ['inputs', 'configurations'], 'every file of up to 3 lines and every filter of up to 3 characters or list of up to two', 'no test covers search',
  [I], [('search', I + ':search')], 'files, lines and filters symbolic within the bounds')
p('C16', 'Every record of a file or folder is decoded once, in order',
  'Reading a file prints the table of every decodable record in it exactly once and in order, whatever the lines between them, the line endings and the presence of a final line end; with output off it prints nothing. Reading a folder does this for each of its files.',
  ['inputs', 'histories'], 'every file of up to 4 lines; folders of up to 3 files', 'the tests only check that the sample files can be read',
  [I], [('files', I + ':read_file, read_folder')], 'lines symbolic, shapes enumerated')
p('C17', 'Parsing a line reports success and prints only when asked',
  'Parsing a line returns True when it is a record and False when it is not; for a record it prints exactly the decoded table when output is on (the default), and nothing when it is off.',
  ['inputs', 'configurations'], 'every line of every layout whose coded fields are decodable, and every rejected line', 'the tests parse sample lines and ignore what is printed',
  [I, R], [('parse', I + ':parse')], 'lines symbolic')
p('C18', 'Whitespace around a line does not matter',
  'A line with whitespace before or after it (spaces, tabs, line ends, any Unicode whitespace) is accepted exactly when it is without, and gives the same record: same fields, status and JSON.',
  ['inputs'], 'every line of 132 characters with up to 3 (thorough: 9) whitespace characters before and after', 'two runs are compared, for every kind of whitespace',
  [R], [('strip', R + ':Record.validate, Record.read')], 'pairs of symbolic lines')
p('C19', 'Decoding has no memory and no side effects',
  'Decoding a field gives the same meaning however often it is decoded and whatever other records, of the same or another record type, were decoded before; it changes nothing in any record.',
  ['histories', 'inputs'], 'histories of decodings over two records of any record types that share a kind of field', 'a test decodes each sample once in a fixed order',
  [D, R], [('decoders', D + ':field_*')], 'histories of four decodings, values symbolic')

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
  for q, _ in P:
    assert len(q['title']) <= 80, q['title']
    f.write(json.dumps(q) + '\n')
M = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && test -x /opt/venv/bin/python',
     'checks': [], 'not_applicable': [],
     'notes': 'run.py executes the package from /repo/src symbolically on every run; see DESIGN.md. run.py --replay FILE re-runs a stored counterexample on the real code.'}
for q, note in P:
  M['checks'].append({'property': q['id'], 'quick_cmd': f"python3-vt /verif/run.py {q['id']} --tier quick",
                      'thorough_cmd': f"python3-vt /verif/run.py {q['id']} --tier thorough",
                      'technique': 'symbolic execution of the package source with an SMT solver (z3): every path explored, the property discharged per path, counterexamples replayed on the real code',
                      'level': 'model_checking', 'level_note': note})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
  json.dump(M, f, indent=1)
