#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and the checks of /verif/MANIFEST.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'pkg/scte35/'
SIS, INS, SCH, SEGD, UPID, SC, SD = [D + x for x in ('splice_info_section.go', 'splice_insert.go', 'splice_schedule.go',
    'segmentation_descriptor.go', 'segmentation_upid.go', 'scte35.go', 'splice_descriptor.go')]
CMDS = [INS, SCH, D+'time_signal.go', D+'splice_null.go', D+'bandwidth_reservation.go', D+'private_command.go', D+'splice_command.go']
DESCS = [SD, SEGD, UPID, D+'audio_descriptor.go', D+'avail_descriptor.go', D+'dtmf_descriptor.go', D+'time_descriptor.go', D+'private_descriptor.go']
ALL = [SIS] + CMDS + DESCS
P = []

def p(id, title, statement, over, text, why, files, mech, technique, note, **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, **kw))

p('P01', 'Decoding never crashes, hangs or exhausts memory, and its result is usable',
  'For every byte string, decoding it (as bytes, hexadecimal or Base64 text) terminates promptly with bounded memory and without a panic, and the text '
  'convenience functions always return a non-nil section. Whatever section results, complete or partial, accepted or not, every way of looking at it - '
  'binary, Base64 and hexadecimal encoding, table, JSON, XML, duration, names, flags, lengths - also finishes without a panic. '
  'The verdict on a signal does not depend on the text form it came in.',
  ['inputs'], 'all byte strings; all sections that can result from decoding, well-formed or not',
  'the tests decode about forty fixed signals; crashes hide in lengths and counts that contradict each other',
  ALL, [('bit reader driven by declared lengths', 'SpliceInfoSection.Decode, decodeSpliceCommand, decodeSpliceDescriptors and each decode method')],
  'property-based fuzzing (rapid) with structured mutation, watchdog and every observer as oracle; coverage-guided fuzzing in the thorough tier',
  'panic, hang and memory are observed on every generated input; absence is not established')
p('P02', 'Decoding reports exactly the field values the bits carry',
  'For every conforming splice_info_section - any command, any descriptors, any flag combination, any field values, any number of components, events, '
  'descriptors and UPIDs up to the size limits - decoding succeeds and every public field equals the value at that position of the SCTE 35 bit syntax, '
  'fields absent from the syntax are left unset, and nothing is dropped, duplicated or reordered.',
  ['inputs'], 'all conforming sections, encrypted header fields included',
  'the tests pin about forty signals, few with components, schedules, several UPIDs or boundary values',
  ALL, [('bit-by-bit readers', 'decode methods of every command and descriptor'), ('section header', 'SpliceInfoSection.Decode')],
  'property-based testing (rapid): sections generated field by field, differential against an independent reference encoder',
  'the reference model was written from the standard; values are compared field by field')
p('P03', 'Encoding follows the SCTE 35 bit syntax exactly',
  'For every section whose fields fit their bit widths, encoding yields exactly the bits the standard prescribes: every field in its place, all length and count '
  'fields equal to what follows them, reserved bits one, inverted-sense flags inverted, fields that a flag switches off absent even if they are set in '
  'the structure, stuffing kept, and a correct CRC_32.',
  ['inputs'], 'all in-range sections built through the public structures, including leftovers in switched-off fields',
  'the tests encode the forty signals they decoded, so an encoder error mirrored in the decoder or in an unsampled branch is not seen',
  ALL, [('bit writers and length computations kept in step', 'encode and length methods of every type'), ('lengths, CRC', 'SpliceInfoSection.Encode, sectionLength, descriptorLoopLength')],
  'property-based testing (rapid): byte-for-byte differential against an independent reference encoder',
  'the value of E_CRC_32 is not fixed, as the library does not encrypt; everything else is compared')
p('P04', 'Decode then encode gives back the same signal',
  'For every signal in canonical form, decoding and re-encoding returns the identical bytes. For every other signal that is accepted, the re-encoded signal is '
  'accepted, has the same content, is the canonical form of that content, and re-encodes to itself.',
  ['inputs'], 'all canonical signals; all accepted non-canonical ones (other reserved bits, header bits, legacy length, unknown command)',
  'a round trip has to hold for every input; the tests check it for their fixed signals only',
  ALL, [('decode and encode of each type are inverses', 'every type; alignment stuffing kept in SpliceInfoSection')],
  'property-based testing (rapid): round trip and canonicalisation against the reference model',
  'UPIDs whose wire form is not that of their type are left out and counted')
p('P05', 'The CRC detects corruption, and what was decoded stays available',
  'Every encoded section ends with the MPEG-2 CRC-32 of all bytes before it. A section whose bytes were changed is accepted only if its CRC is right for the '
  'changed bytes; every change of up to 32 consecutive bits of a valid section is refused. A section whose only fault is its CRC is reported with the '
  'CRC error, and all of its content is still decoded.',
  ['inputs'], 'all valid sections and all corruptions of them: every single bit, bursts, scattered bytes, the CRC itself',
  'the tests corrupt one signal in one place; a CRC weakness (an ignored byte, a wrong table entry, an early return) shows on other bytes only',
  [SIS, D+'crc_32.go'], [('CRC table and loop', 'calculateCRC32, verifyCRC32'), ('CRC checked last', 'SpliceInfoSection.Decode')],
  'property-based testing (rapid): fault injection on generated signals, bitwise CRC as oracle',
  'single-bit errors are exhaustive per generated section')
p('P06', 'XML documents carry a section without loss',
  'For every section with text that XML can hold, marshalling it to XML and unmarshalling the result gives a section equal in every field, including the document-only '
  'pre-roll, absent optional parts stay absent and zero values stay present where absence means something else, and it encodes to the same binary; also if the section is part of a larger document or stream.',
  ['inputs'], 'all sections: every command and descriptor, every UPID type, component modes, boundary values',
  'the tests compare four documents',
  ALL, [('struct tags and polymorphic fields', 'iSIS, SpliceInfoSection.UnmarshalXML, SpliceDescriptors.UnmarshalXML'), ('hex and UPID text', 'Bytes, SegmentationUPID')],
  'property-based testing (rapid): round trip through encoding/xml, on the field-by-field normal form',
  'control characters in text are excluded (XML 1.0 cannot carry them), as a known finding')
p('P07', 'JSON documents carry a section without loss',
  'For every section, marshalling it to JSON, plain or indented, and unmarshalling the result gives a section equal in every field, including the document-only pre-roll; absent '
  'optional parts stay absent and zero values that mean something stay; the commands and descriptors keep their kind; and it encodes to the same binary; also if the section is part of a larger document or stream.',
  ['inputs'], 'all sections: every command and descriptor, every UPID type, component modes, boundary values',
  'the tests compare a dozen documents',
  ALL, [('type-directed decoding', 'SpliceInfoSection.MarshalJSON and UnmarshalJSON, SpliceDescriptors.UnmarshalJSON'), ('omitempty tags', 'all struct tags')],
  'property-based testing (rapid): round trip through encoding/json, on the field-by-field normal form',
  'as strong as the generated domain')
p('P08', 'XML uses the SCTE 35 vocabulary, in both directions',
  'For every section, the XML written has the elements, attributes, order, namespace and value forms of the SCTE 35 XML schema. Every document of that schema that '
  'describes a section - any namespace prefix, comments, white space, 1 and 0 for booleans, attributes in any order or left at their default, extension '
  'elements - is read as the section it describes; an absent SAP type means "not specified".',
  ['inputs'], 'all sections, and all spellings of the documents that describe them',
  'the tests read and write four documents in one spelling; a renamed attribute round-trips with itself',
  ALL, [('struct tags', 'all types'), ('defaults', 'SpliceInfoSection.UnmarshalXML')],
  'property-based testing (rapid): differential against an independent XML renderer and tree comparison, with generated spellings',
  'PrivateDescriptor, PrivateCommand and FullSrvcAudio deviate from the schema: known findings')
p('P09', 'JSON uses the documented vocabulary, in both directions',
  'For every section, the JSON written has the documented property names, nesting, type codes and value forms: private bytes in hexadecimal, the SAP type and tier always present, '
  'absent optional parts left out or null. Every such document - members in any order, white space, defaults left out, unknown members added - is read as the section '
  'it describes; an absent SAP type means "not specified", and descriptors are told apart by type and identifier.',
  ['inputs'], 'all sections, and all spellings of the documents that describe them',
  'the tests compare a dozen documents; a renamed property round-trips with itself',
  ALL, [('JSON tags, JSONType', 'all types'), ('defaults', 'SpliceInfoSection.UnmarshalJSON')],
  'property-based testing (rapid): differential against an independent JSON renderer, with generated spellings',
  'absent and null or zero are taken as equal in output where the vocabulary does not tell them apart')
p('P10', 'The Base64 and hexadecimal forms are faithful and strictly read',
  'For every section, its Base64 and hexadecimal texts denote exactly the bytes of its binary encoding, and decoding either text gives what decoding the bytes gives; '
  'hexadecimal is read in either case, with or without a leading 0x. A text that is not in the form at all - a character outside the alphabet, a wrong length or wrong padding - is refused with the '
  'unsupported-encoding error and a non-nil, empty section.',
  ['inputs'], 'all sections; all texts',
  'the tests try a handful of texts',
  [SIS, SC], [('text conversion', 'DecodeBase64, DecodeHex, SpliceInfoSection.Base64 and Hex')],
  'property-based testing (rapid): round trip and differential against independent text codecs, mutated texts',
  'line breaks inside Base64 are not judged')
p('P11', 'Structurally unsound signals are rejected, sound ones are accepted',
  'A signal is accepted if and only if its structure is sound: each declared length and count is exactly what the structure it governs uses and is present in the signal, and the CRC is '
  'right. A structure that needs more bytes than it was given is reported as an overflow, one that leaves bytes of its own unread as an underflow.',
  ['inputs'], 'all byte strings, in particular valid signals with lying lengths, counts, types and flags and a repaired CRC, and cut signals',
  'the tests hold a handful of malformed signals; each length and count field of each structure can lie in many ways',
  ALL, [('reader error state', 'readerError and its uses'), ('declared lengths', 'SpliceInfoSection.Decode, decodeSpliceDescriptors')],
  'property-based fuzzing (rapid) with structured mutation, verdict and error class against an independent reference decoder; coverage-guided fuzzing in the thorough tier',
  'a nested MID UPID that is cut short is tolerated, as an existing test requires')
p('P12', 'A damaged signal still yields everything that precedes the damage',
  'When decoding fails, the section returned holds the correct values of everything that was readable: the header always, the command whenever its own bytes are sound, every sound descriptor '
  'even after an unsound one, in its original position, and all content when only the CRC or the tail is at fault.',
  ['inputs'], 'all signals with a sound prefix: damage in one or more descriptors, in the command, in the tail',
  'two tests look at partial results; which part survives depends on where the damage is',
  [SIS, SD] + CMDS, [('errors kept while decoding goes on', 'decodeSpliceDescriptors, SpliceInfoSection.Decode')],
  'property-based testing (rapid): damage injected into chosen parts of generated signals, survivors compared with the reference model',
  'descriptor values after damage are compared only for descriptors the reference finds sound')
p('P13', 'Looking at a section never changes it, and always shows the same',
  'Encoding, rendering, marshalling and querying a section - in any order, any number of times - leaves what it contains unchanged, and each gives the same result every time, whatever was '
  'called before.',
  ['histories', 'inputs'], 'all sections, decoded or built, and all sequences of observing calls',
  'tests call one method per section; a mutation by one observer shows only through another one afterwards',
  ALL, [('observers work on the shared structure', 'Type, Tag, valueBytes, length, encode, writeTo, MarshalJSON')],
  'stateful property-based testing (rapid): generated call histories against first observations and the field-by-field normal form',
  'covers the public observers')
p('P14', 'Reusing a section for another signal leaves no trace of the former',
  'Decoding a signal - even one that is refused - or successfully unmarshalling a JSON or XML document into a section that was used before gives the same section as into a fresh one, whatever sequence of decodes, documents, '
  'failures and edits went before.',
  ['histories', 'inputs'], 'all sequences of decode, JSON and XML loads into one section, failing ones included',
  'tests always start from a fresh section',
  [SIS, SD], [('fields overwritten, none accumulated', 'Decode, UnmarshalJSON, UnmarshalXML, SpliceDescriptors.UnmarshalXML')],
  'stateful property-based testing (rapid): generated load histories, differential against a fresh section',
  'pre-roll, which binary does not carry, is not judged after a binary decode; content left by a document that failed to load is not judged')
p('P15', 'A section is independent of the buffers it came from and gave out',
  'After a decode the caller may overwrite its buffer without any effect on the section, decoding never writes to that buffer, and writing to an encoding or document that was returned has no effect on the section or on later results, and nothing done later changes what was returned. '
  'Two sections decoded from the same bytes share nothing: editing one does not show in the other.',
  ['inputs', 'histories'], 'all signals, all overwritings',
  'no test overwrites a buffer after use',
  [SIS, UPID, D+'private_command.go', D+'private_descriptor.go'], [('copies of byte ranges', 'Decode and the private commands and descriptors')],
  'property-based testing (rapid): metamorphic - scribble over buffers, compare with an untouched twin',
  'covers all public byte slices and hidden stuffing')
p('P16', 'Encodings follow every edit of a section',
  'After any sequence of edits to the public fields of a section - commands replaced, flags, times and durations set and cleared, components, events, descriptors and UPIDs added, removed and '
  'reordered, decoding or loading between - every binary, text and document form describes exactly the edited section: nothing is remembered from before, no length or CRC is stale, and stuffing from a decoded signal is kept.',
  ['histories', 'inputs'], 'all edit sequences on all sections',
  'tests build or decode a section and encode it once',
  ALL, [('lengths and flags derived, not stored', 'length, flags, encode')],
  'stateful, model-based property testing (rapid): each edit applied to section and reference model, all encodings compared after every step',
  'the edits cover every public field')
p('P17', 'Each UPID type is converted by its own rules, without loss',
  'For every UPID type and every value in that type\'s form - EIDR compressed to twelve bytes and shown canonically, ISAN and MPU in Base64 with the MPU format identifier apart, TI as a decimal number, '
  'everything else as text in which each byte is one character - the value shown is the one the bytes denote, and the bytes are recovered exactly from it, alone or inside a MID. '
  'The ASCII view shows printable bytes as they are and every other byte as a dot.',
  ['inputs'], 'all UPID types and byte values, single and nested',
  'one test per type exists with one value; conversions differ on special bytes (slash, blanks, bytes above 127) and boundary numbers',
  [UPID, SEGD], [('per-type codecs', 'NewSegmentationUPID, valueBytes, canonicalEIDR, compressEIDR, ASCIIValue')],
  'property-based testing (rapid): differential against reference codecs and byte round trip',
  'values outside a type\'s form are judged only for safety (P01)')
p('P18', 'Time conversions are exact',
  'Every 33-bit and 40-bit tick count converts to the duration that is the exact quotient rounded down to the nanosecond and back to the same tick count, longer tick counts and all non-negative durations convert exactly too, rounding durations up to the next tick, and both '
  'conversions are monotonic. Every 32-bit GPS second count is the instant that many seconds after 1980-01-06T00:00:00Z and converts back to itself; an instant within a second, in any time zone, counts for that second.',
  ['inputs'], 'all tick counts up to the range of durations, all non-negative durations up to centuries, all 32-bit second counts',
  'one test goes up to two minutes; floating point and 32-bit wrap show at large values',
  [SC], [('conversions', 'TicksToDuration, DurationToTicks, NewUTCSpliceTime, GPSSeconds')],
  'property-based testing (rapid) and enumeration of strides and boundaries against integer arithmetic',
  'strides, not every value, of the large ranges')
p('P19', 'The duration of a signal is what its command and descriptors say',
  'The duration reported for a section is the break duration of its splice_insert if it has one, and otherwise the sum of the segmentation durations of all its segmentation descriptors, zero if '
  'there are none; nothing else contributes.',
  ['inputs'], 'all sections, in particular those with several segmentation descriptors and other durations',
  'no test has several descriptors with durations',
  [SIS], [('duration', 'SpliceInfoSection.Duration')],
  'property-based testing (rapid): differential against the reference model',
  'exact to the nanosecond')
p('P20', 'The table shows every field of the section, correctly',
  'For every section, the table lists the fields of the section in the order of the syntax, correctly nested with balanced braces, with the values, derived lengths, counts, flags and names that the binary form '
  'carries; every line starts with the prefix and is indented by the indent string once per level; nothing is shown that the section does not carry.',
  ['inputs', 'configurations'], 'all sections, all prefixes and indents',
  'no test looks at a table at all',
  [D+'table.go'] + ALL, [('rows', 'writeTo of every type, table.row, valueString')],
  'property-based testing (rapid): the table is parsed and compared with rows derived from the reference model',
  'rows are matched leniently on spelling (number base, separators), strictly on values')
p('P21', 'The command line tool gives what the library gives',
  'For every signal, "decode" prints the table, JSON or XML of the decoded section on standard output, and an error on standard error exactly when the library reports one, while still printing what was decoded. '
  'For every document, "encode" prints the Base64 and hexadecimal form of the section it describes, the same from an argument as from standard input, whatever its size and line breaks; an unusable document gives an error and '
  'no encoding.',
  ['inputs', 'configurations'], 'all signals in both text forms, all documents, all output formats, both input ways',
  'the tool has no test',
  ['main.go', 'cmd/decode.go', 'cmd/encode.go', 'cmd/scte35.go'], [('input sniffing, output selection', 'decodeCommand, encodeCommand')],
  'property-based testing (rapid) of the built binary, differential against the library and the reference model',
  'exit codes are not judged')
p('P22', 'Tolerated irregularities do not change the content',
  'The content decoded from a signal does not depend on the values of reserved bits, on table_id, the syntax and private indicators or section_length, on alignment stuffing, or on whether the command length is given or is '
  'the legacy value 0xFFF. Descriptors and commands with unknown tags, types or identifiers are kept with all their bytes as private ones without disturbing their neighbours.',
  ['inputs'], 'all sections and all such irregularities',
  'two tests cover legacy length and stuffing for one signal each',
  ALL, [('skipped bits', 'decode methods'), ('legacy branch', 'SpliceInfoSection.Decode'), ('fallbacks', 'NewSpliceCommand, NewSpliceDescriptor')],
  'property-based testing (rapid): metamorphic - irregular variants of a generated section decode to the same fields',
  'legacy length is not combined with private commands, whose end it leaves open')
p('P23', 'Bad JSON and XML documents are rejected or safely handled',
  'Reading any JSON or XML document, however malformed, truncated, mistyped or out of range, never panics, hangs or leaves a section that panics when it is looked at. Documents that are not well-formed, or in which a '
  'value has the wrong type, does not fit the integer type of its field, or is not valid hexadecimal, a JSON descriptor is null, or an XML element names no known command or descriptor, are reported as errors.',
  ['inputs'], 'all documents: valid ones mutated in syntax, values and structure',
  'no test reads a bad document',
  [SIS, SD, UPID, SC], [('unmarshallers', 'UnmarshalJSON, UnmarshalXML, Bytes.UnmarshalText')],
  'property-based fuzzing (rapid): grammar-aware mutation of generated documents; safety and rejection oracles',
  'sections without any command are not encoded to binary meaningfully and only safety is judged for them')
p('P24', 'Distinct sections can be used from several goroutines at once',
  'Goroutines that each decode, edit, encode, render and marshal their own sections - even from the same input bytes - do not affect each other: each gets the results it gets alone, and there is no data race.',
  ['schedules', 'inputs'], 'all sections and interleavings of operations on distinct sections',
  'the tests run one goroutine; shared hidden state (a cache, a shared buffer, a package variable) shows only under concurrency',
  ALL, [('no shared mutable state', 'package variables: crc32Table, Logger')],
  'property-based testing (rapid) under the race detector: concurrent runs against sequential results',
  'schedules are those the Go scheduler takes; the race detector generalises over them')
p('P25', 'Names and kinds are right for every code value',
  'For every segmentation type, UPID type (with every EIDR prefix), SAP type, encryption algorithm and device restriction value the name shown is the one the standard gives, and "unknown" for the rest. For every command type, descriptor tag and identifier the '
  'kind of object made is the one the standard assigns, reporting that type or tag; where there is none, it is a private one. Each '
  'exported constant that names a code stands for that code in the sections written with it.',
  ['inputs'], 'all code values',
  'tests look at a few names',
  [SEGD, UPID, SIS, D+'encrypted_packet.go', D+'delivery_restrictions.go', SD, D+'splice_command.go'], [('switches', 'Name, SAPTypeName, eidrTypeName, NewSpliceCommand, NewSpliceDescriptor')],
  'exhaustive enumeration and generated values against tables taken from the standard',
  'exhaustive over the 8-bit code spaces')
p('P26', 'Derived flags, lengths and constructors agree with the encoded bits',
  'For every section, each flag and length reported - splice time, duration, program, encryption, delivery-restriction flags, UPID length - equals the bit or number in its encoding, also on absent parts, and objects made by the constructors equal the same '
  'objects built by hand and encode to the bits they stand for.',
  ['inputs'], 'all sections and constructor arguments',
  'few accessors are tested, each for one value',
  [INS, SCH, SEGD, UPID, SIS, D+'splice_time.go', D+'time_signal.go', SC], [('accessors', 'TimeSpecifiedFlag, DurationFlag, ProgramSpliceFlag, SegmentationUpidLength, ...')],
  'property-based testing (rapid): accessors compared with bits picked from the reference encoding',
  'covers the exported accessors and constructors')
p('P27', 'Whatever a section holds, it is encoded and documented without harm',
  'For every section that can be put together through the public structures - numbers too large for their bits, texts of any kind, absent or empty parts, lists of any '
  'length, instants far away, no command at all - encoding, table, documents, durations, names and flags finish without a panic. An encoding is either refused, Base64 and '
  'hexadecimal then being empty, or ends with a right CRC_32 after as many bytes as section_length says (modulo its 12 bits). A document is either refused or well-formed, can be loaded again '
  'without an error or a panic, and then holds the same values, however little sense they make (text the document form has no characters for apart).',
  ['inputs'], 'all sections reachable by setting public fields of decoded, loaded or built sections, nil list entries apart',
  'the tests build sensible sections only; what an application puts together by mistake meets other branches',
  ALL, [('encode, length, writeTo and marshalling of every type', 'no index, slice or pointer without a guard; errors passed on'), ('documents', 'MarshalJSON, UnmarshalJSON, UnmarshalXML and the field tags')],
  'property-based fuzzing (rapid): generated sections with arbitrary values put into arbitrary public fields, panic, CRC, well-formedness and document round trip as oracles',
  'that numbers too large are refused or how they are cut is not fixed; nil entries of lists and typed nil pointers are left out; private descriptors under the CUEI identifier are passed over in JSON, where tag and identifier tell the kind')
p('P28', 'What comes out depends on the input alone, not on machine or process',
  'For every history of loads, edits and observations, every signal, document, text and number, and every section the public structures can hold, everything the library gives - '
  'fields, errors, encodings, table, documents, durations, times, names, flags - is the same on platforms of 64-bit and 32-bit words, in a new process and in one that has done '
  'much before, with one processor or many and whatever the environment.',
  ['inputs', 'histories'], 'all inputs; linux on amd64 and 386',
  'the tests run on one machine, where values that do not fit a smaller word, and what a process remembers, are not seen',
  ALL, [('uses of int and uint', 'no value of more than 31 bits may go through them'), ('package variables', 'none may hold what an earlier call left')],
  'differential property-based testing (rapid): the same generated case run here and in a partner process built for another word size',
  'the local time zone is the same in both; where 386 binaries cannot be run the partner has the same word size, which the labels in the evidence tell')

def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, (x['id'], len(x['title']))
            rec = dict(id=x['id'], title=x['title'], statement=x['statement'], quantifier=dict(over=x['over'], text=x['text']),
                       why_tests_cant=x['why'], anchors=dict(files=x['files'], mechanism=[dict(name=a, where=b) for a, b in x['mech']]))
            f.write(json.dumps(rec) + '\n')
    try:
        have = subprocess.run([os.environ.get('HARNESS', '/tmp/vh'), 'list'], capture_output=True, text=True).stdout.split('\n')
    except OSError:
        have = []
    ids = {l.split()[0] for l in have if l}
    checks, na = [], []
    for x in P:
        if x['id'] in ids:
            checks.append(dict(property=x['id'], quick_cmd=f"bash check.sh {x['id']} quick", thorough_cmd=f"bash check.sh {x['id']} thorough",
                               technique=x['technique'], level='exploration', level_note=x['note']))
        else:
            na.append(dict(property=x['id'], reason='check not built yet'))
    m = dict(version=1, setup_cmd='bash setup.sh',
             hooks=dict(guard='none', enable='no hooks: the checks use the public API of the unmodified package', source_commits=[]),
             checks=checks, not_applicable=na,
             notes='Genuine defects found and repaired, and known findings, are listed in known-findings.txt; see DESIGN.md.')
    with open(V + '/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')

main()
