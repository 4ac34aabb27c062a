#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, H, F, SC, CP, CF = ('inputs', 'histories', 'fault_sequences', 'schedules',
                       'crash_points', 'configurations')
SUB, DEL, UT, GSM = ('messaging/sms/submit.py', 'messaging/sms/deliver.py',
                     'messaging/utils.py', 'messaging/sms/gsm0338.py')
UDH, PDU, WAP = ('messaging/sms/udh.py', 'messaging/sms/pdu.py',
                 'messaging/sms/wap.py')
CON, BASE = 'messaging/sms/consts.py', 'messaging/sms/base.py'
WSP, MMS, MSG, IT = ('messaging/mms/wsp_pdu.py', 'messaging/mms/mms_pdu.py',
                     'messaging/mms/message.py', 'messaging/mms/iterator.py')

P = []


def p(id, title, statement, over, text, why, files, mech, observe, level_note,
      technique='runtime monitoring: offline oracle over recorded calls'):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech, observe=observe,
                  level_note=level_note, technique=technique))


p('C01', 'An SMS-SUBMIT PDU carries the addressing and options that were set',
  'Every PDU made for an outgoing SMS is a well-formed TS 23.040 SMS-SUBMIT '
  'that carries exactly the service centre (or none), destination number with '
  'its international/national type, message reference, protocol identifier, '
  'status-report request, message class, coding group and validity period of '
  'the message object. All parts of a multipart message carry the same ones, '
  'and no other flag is set.',
  [I, CF], 'every accepted combination of number, SMSC, reference, PID, class, '
  'status report request, coding and validity, for single and multipart texts',
  'the tests compare a dozen fixed PDUs; number parity x SMSC x flags x '
  'validity x multipart is a product they sample at a dozen points',
  [SUB, UT], [('SmsSubmit.to_pdu', SUB), ('encode_str/swap', UT)],
  ['SmsSubmit.to_pdu()'],
  'thousands of generated messages per run, each PDU read back by an '
  'independent TS 23.040 parser; trusts that parser')

p('C02', 'A single-part SMS-SUBMIT PDU carries exactly the text',
  'The user data of a PDU made for a text that fits one message, read by the '
  'rules of TS 23.038/23.040, is exactly that text and nothing more: in the '
  '7-bit alphabet with its escapes, as octets in 8-bit coding, and as UTF-16 '
  '(surrogate pairs included) in UCS2 coding. The user data length counts '
  'exactly its septets or octets.',
  [I], 'every text of 0-160 septets, 0-140 octets or 0-70 UTF-16 units',
  'the tests pack a handful of short ASCII texts; septet phase, escapes, '
  'padding and non-BMP characters depend on position and content',
  [SUB, UT, GSM], [('packing', UT), ('_get_pdu_text/alphabets', SUB)],
  ['SmsSubmit.to_pdu()'],
  'every length, every GSM character at every phase, BMP sample and octets, '
  'read back by an independent model')

p('C03', 'Splitting a long SMS loses and reorders nothing',
  'The parts of a long text, put in the order of their numbers, concatenate '
  'to exactly the text, in every alphabet. No part starts or ends inside a '
  'character: neither an escape sequence of the GSM alphabet nor a surrogate '
  'pair is split over two parts.',
  [I], 'every text of up to 255 parts in each alphabet, two-unit characters '
  'at every offset from a part boundary',
  'the tests split three texts and mostly count the parts',
  [SUB, UT], [('_split_sms_message', SUB)], ['SmsSubmit.to_pdu()'],
  'all lengths up to three parts, boundary-aligned two-unit characters')

p('C04', 'Segments fit and agree on which message they belong to',
  'A text that fits one message (160 septets, 140 octets, 70 UTF-16 units) is '
  'sent as one PDU without concatenation header, and a longer one as full '
  'parts (153/134/67) of at most 140 octets of user data whose concatenation '
  'headers share one reference (the one chosen, if any), state the total and '
  'number the parts from 1 upwards, as do the count and sequence of the Pdu '
  'objects. Two multipart messages made one after the other by the same '
  'object differ in reference, and a text of more than 255 parts is refused.',
  [I, H], 'every text length in every alphabet, with and without a chosen '
  'reference, and histories of multipart messages from one object',
  'the tests look at the part count of three texts',
  [SUB, PDU], [('_split_sms_message', SUB), ('Pdu', PDU)],
  ['SmsSubmit.to_pdu()'],
  'lengths around all limits, 255-part messages, histories of 270 messages')

p('C05', 'The length of a Pdu object is what AT+CMGS needs',
  'The text form of every PDU made is an even number of upper-case hexadecimal '
  'digits. Its length attribute is the number of octets that follow the '
  'service centre field.',
  [I], 'every message that can be encoded', 'tests compare the length of a '
  'handful of PDUs, none with odd SMSC lengths',
  [PDU, SUB], [('Pdu', PDU)], ['Pdu.pdu, Pdu.length'],
  'thousands of generated PDUs with every SMSC length')

p('C06', 'The alphabet is chosen so that no character is lost',
  'Without an explicit coding, a text of the GSM 7-bit alphabet and its '
  'extension is sent in 7-bit coding and any other text in UCS2. An explicit '
  'coding is honoured if it can represent the text; otherwise encoding is '
  'refused instead of sending something else.',
  [I], 'every text and every explicit coding', 'tests try five texts',
  [SUB, GSM], [('fmt choice', SUB), ('is_gsm_text', GSM)],
  ['SmsSubmit.to_pdu(), is_gsm_text()'],
  'every GSM character, look-alikes at several positions, random texts')

p('C07', 'Encoding an SMS is repeatable and reflects the current settings',
  'Encoding a message object again without changing it gives the same PDUs, '
  'except for an automatically chosen concatenation reference. After any '
  'history of changed settings and encodings, the PDUs are those of a new '
  'object with the current settings, and settings read back as they were set.',
  [H], 'every history of setting changes and encodings on one object',
  'tests encode each object once',
  [SUB, BASE], [('properties of SmsSubmit', SUB)], ['SmsSubmit'],
  'hundreds of random histories judged by a parser of the resulting PDUs')

p('C08', 'Invalid SMS settings are refused and change nothing',
  'A destination or service centre number that is not an optional plus sign '
  'and 3 to 20 ASCII digits (one line feed behind them is ignored), a message '
  'class outside 0-3 or a validity that is no time period, date or nothing is refused with a ValueError or '
  'TypeError when it is set. The message keeps what it had before, and every '
  'valid value is accepted.',
  [I, H], 'every value, set in the constructor or in any history of '
  'assignments', 'tests try two invalid values',
  [SUB], [('property setters', SUB)], ['SmsSubmit constructor and attributes'],
  'histories of valid and invalid assignments with an encode after each')

p('C09', 'A relative validity is encoded as the longest period that fits',
  'A relative validity from 5 minutes to 63 weeks is encoded as the '
  'TS 23.040 value of the longest representable period that is not longer. A '
  'longer one or one that is too short is refused with an ordinary error.',
  [I], 'every time period', 'tests sample a few values per range and not the '
  'boundaries in between',
  [UT, SUB], [('timedelta_to_relative_validity', UT)],
  ['timedelta_to_relative_validity(), SmsSubmit.to_pdu()'],
  'each of the 256 values with neighbours of a second and a microsecond')

p('C10', 'An absolute validity is encoded exactly, with its timezone',
  'A date and time is encoded as seven swapped BCD octets whose last octet '
  'carries the offset from UTC in quarters of an hour and its sign (0 without '
  'timezone). A timezone text +hhmm or -hhmm denotes exactly that fixed offset.',
  [I], 'every date from 1970 to 2068 and every offset of whole quarters of '
  'an hour', 'tests encode three dates, none west of Greenwich with a half '
  'hour', [UT, SUB], [('datetime_to_absolute_validity, FixedOffset', UT)],
  ['datetime_to_absolute_validity(), FixedOffset, SmsSubmit.to_pdu()'],
  'every quarter offset between -19:45 and +19:45 with random dates')

p('C11', 'The gsm0338 codec is exactly the TS 23.038 default alphabet',
  'Encoding maps every character of the default alphabet and its extension '
  'table to its code and refuses any other with UnicodeError, or substitutes '
  'or skips it as the error mode says. Decoding a valid sequence is the '
  'inverse, and the GSM text test is true exactly for encodable texts.',
  [I], 'every Unicode text and every octet string',
  'tests round trip most of the alphabet in strict mode only',
  [GSM], [('encode/decode tables', GSM)],
  ['unicode.encode("gsm0338"), str.decode("gsm0338"), is_gsm_text()'],
  'every code point, octet and escape pair; the lossy Greek fallbacks of the '
  'replace mode as documented in the module')

p('C12', 'A received SMS is decoded exactly',
  'For every well-formed SMS-DELIVER PDU the decoded sender (digits with a '
  'plus sign if international, or alphanumeric text), service centre, protocol '
  'identifier, coding, time of arrival and text are exactly those in the PDU. '
  'This holds in the 7-bit, 8-bit and UCS2 alphabets, for every general and '
  'message waiting coding group, and with or without a user data header.',
  [I], 'every well-formed SMS-DELIVER', 'tests decode about twenty captured '
  'PDUs', [DEL, UT, GSM, UDH], [('SmsDeliver', DEL)], ['SmsDeliver'],
  'PDUs built by an independent encoder over the cross product of address '
  'kinds, data coding octets, lengths and headers')

p('C13', 'Timestamps are converted to UTC exactly',
  'The date of a received SMS is its service centre timestamp minus the '
  'timezone offset that the timestamp itself states, for every date, time and '
  'offset of up to 79 quarters of an hour with either sign. Years 00-68 are '
  '2000-2068 and 69-99 are 1969-1999.',
  [I], 'every timestamp and timezone octet', 'tests see a handful of '
  'timezones', [DEL, UT], [('_process_date and get_tz_offset', DEL)],
  ['SmsDeliver.date'],
  'every timezone octet crossed with dates at year, month and day borders')

p('C14', 'User data headers are decoded exactly',
  'Concatenation (8 and 16 bit references) and application port addressing (8 '
  'and 16 bit) information elements of a user data header are decoded exactly, '
  'in any order and mixed with other elements, whose octets are kept under '
  'their identifier; of repeated or exclusive ones the last counts. The text '
  'that follows is that of the message, for every header length and septet '
  'padding.',
  [I], 'every sequence of information elements of up to 139 octets',
  'tests decode three headers', [UDH, DEL], [('UserDataHeader', UDH)],
  ['UserDataHeader, SmsDeliver.udh, SmsDeliver.text'],
  'random element sequences and all header lengths in all alphabets')

p('C15', 'A long SMS survives sending, reordering and reassembly',
  'Any text submitted, carried by the network as SMS-DELIVER PDUs and decoded '
  'again can be put together by the reference, total and number of the decoded '
  'parts alone to exactly the original text. This also holds for parts that '
  'arrive in any order, repeated and interleaved with those of other messages.',
  [I, H], 'every set of texts and every order of arrival', 'tests never '
  'decode what they encode', [SUB, DEL, UDH, GSM],
  [('to_pdu', SUB), ('SmsDeliver', DEL)], ['SmsSubmit.to_pdu(), SmsDeliver'],
  'a model network transcodes the real PDUs and shuffles and repeats them')

p('C16', 'Status reports are decoded exactly',
  'An SMS-STATUS-REPORT is recognised as one and its message reference, '
  'recipient, times of submission and of discharge and status octet are '
  'decoded exactly. A status octet 0 is reported as delivered (SR-OK), 0x30 '
  'as stored (SR-STORED) and no other as either of them (SR-UNKNOWN), and an '
  'SMS-DELIVER is never taken for a report.',
  [I], 'every status octet, recipient and pair of times',
  'tests decode two reports', [DEL, CON], [('_decode_status_report_pdu', DEL)],
  ['SmsDeliver.sr, SmsDeliver.text, SmsDeliver.type'],
  'all 256 status octets with every address length')

p('C17', 'Decoding a PDU depends on nothing but its octets',
  'The result of decoding does not depend on the case of the hexadecimal '
  'digits (or on an odd trailing digit in the lax mode; the strict one '
  'refuses it), and a new PDU assigned to a decoded message replaces everything that '
  'was decoded before, exactly as in a new object. A truncated, '
  'damaged or random PDU ends with a result or with an ordinary '
  'error, never with an endless loop.',
  [I, H, F], 'every PDU, its truncations and damages, and every history of '
  'PDUs assigned to one object',
  'tests decode each PDU once, and two malformed ones',
  [DEL, UDH, UT], [('SmsDeliver.pdu', DEL)], ['SmsDeliver'],
  'projection oracle (new object) and a step budget monitor on every decode')

p('C18', 'WAP pushes are recognised and their MMS notifications extracted',
  'The data of a message is recognised as a WAP push exactly if its WSP PDU '
  'type, the second octet, is Push (0x06). The MMS notification of a push '
  'received in one or several SMS, whatever the length of its WSP headers, is '
  'extracted with exactly the headers that were sent, and recognised as an '
  'MMS notification exactly if it states a sender and a content location.',
  [I], 'every notification, WSP header length and number of parts',
  'tests extract two captured pushes',
  [WAP, DEL, UDH], [('extract_push_notification', WAP)],
  ['is_a_wap_push_notification(), extract_push_notification(), '
   'is_mms_notification()'],
  'pushes built by an independent encoder, split at every part size')

p('C19', 'WSP integers and lengths round trip',
  'Each integer form of WSP (octet, 7-bit short, long, variable-length, value '
  'length, integer value) encodes every number in its range to the octets of '
  'WAP-230 and decodes those octets to the number, consuming exactly them. '
  'A number that the form cannot carry is refused: a negative one, or one over '
  'the limit of the short forms or of the 30 octets of the long one.',
  [I], 'every integer', 'tests do not encode a single integer',
  [WSP], [('Encoder/Decoder integers', WSP)],
  ['Encoder.encode_*, Decoder.decode_* of integers'],
  'all boundaries up to 30 octets and random numbers, exact octets')

p('C20', 'WSP texts, tokens, versions, media types and parameters round trip',
  'Text strings, quoted strings, token texts, version values, media types and '
  'typed or untyped parameters are encoded to octets of WAP-230 that decode to '
  'the same value, consuming exactly their octets. Well-known values use their '
  'assigned numbers and others their text.',
  [I], 'every value of each kind', 'tests only see what four captured '
  'messages contain', [WSP], [('Encoder/Decoder', WSP)],
  ['Encoder.encode_*, Decoder.decode_*'],
  'exact octets of an independent model of WAP-230 section 8.4')

p('C21', 'The preview iterator never loses or repeats an octet',
  'For every sequence of preview, preview-reset and read operations the octets '
  'read are those of the data in order, each exactly once. A preview shows '
  'the octets that follow the last one read or previewed without consuming '
  'them, and at the end both stop.',
  [H], 'every sequence of operations and every data',
  'no test uses the iterator directly', [IT], [('PreviewIterator', IT)],
  ['PreviewIterator'], 'model-based random operation sequences')

p('C22', 'A failed or finished WSP decode leaves the cursor where it belongs',
  'A decoder that succeeds consumes exactly the octets of its value, whatever '
  'follows. A decoder that documents so reports octets that start no value '
  'of its kind with a DecodeError and consumes nothing then, so that an '
  'alternative decodes the same octets.',
  [I, H], 'every octet sequence and every decoder',
  'tests never decode values that are not there', [WSP, MMS, IT],
  [('preview/reset_preview', WSP)], ['Decoder.decode_*'],
  'cursor position observed after every decode of random and structured data')

p('C23', 'MMS headers are decoded exactly',
  'Every header of an MMS message is decoded to the value that its octets '
  'state (WAP-209/OMA-MMS encapsulation): addresses, character sets, dates, '
  'absolute and relative times, flags, classes, priorities, statuses, sizes, '
  'versions. An unknown well-known value gives the specified default and '
  'never disturbs the headers that follow.',
  [I], 'every header and value in every order', 'tests decode the headers of '
  'nine captured messages', [MMS, WSP], [('MMSDecoder', MMS)],
  ['MMSMessage.from_data(), MMSDecoder'],
  'messages built by an independent encoder, all headers, all value octets')

p('C24', 'MMS headers survive an encode and decode',
  'A message of the supported headers encodes to octets that an independent '
  'reader and the library itself decode to the same header values. A header '
  'that cannot be encoded raises an error and is never written as something '
  'else, apart from the documented defaults for unknown message types and '
  'statuses.',
  [I], 'every combination of header values', 'tests compare the file size of '
  'four encoded messages', [MMS, WSP], [('MMSEncoder', MMS)],
  ['MMSMessage.encode(), MMSMessage.from_data()'],
  'random header sets; octets are read by an independent reader')

p('C25', 'The parts of an MMS message survive an encode and decode',
  'Every part of a message, on a slide or not, arrives in the encoded '
  'multipart body exactly once and in order, with exactly its octets, content '
  'type and parameters, and its Content-ID and Content-Location. The '
  'content type of the message states related or mixed as set.',
  [I], 'every set of parts and payloads', 'tests encode four messages and '
  'compare headers and sizes', [MSG, MMS, WSP],
  [('encode_message_body, decode_data_part', MMS)],
  ['MMSMessage.encode(), MMSMessage.from_data()'],
  'payload sizes around varint borders, arbitrary octets, independent reader')

p('C26', 'Content types with parameters survive an encode and decode',
  'Any content type, well-known or textual, with any set of parameters is '
  'encoded to a WAP-230 content type value whose length is right and which '
  'decodes to the same type and parameters. What cannot be encoded '
  'raises an error.',
  [I], 'every content type and parameter set', 'tests see four content types',
  [WSP, MMS], [('encode_content_type_value', WSP)],
  ['Encoder.encode_content_type_value, Decoder.decode_content_type_value'],
  'independent reader and library decoder on random types and parameters')

p('C27', 'Encoding an MMS message is repeatable, pure and safe for files',
  'Encoding a message does not change it and gives the same octets again, and '
  'writing it to a file and reading that file is the same as encoding and '
  'decoding in memory. Only a Transaction-Id that was not set is chosen anew. '
  'When encoding fails, an existing target file keeps its content, and a file '
  'that cannot be written is reported with an error.',
  [H, F], 'every message, every history of encodes and additions, and '
  'encoding failures', 'tests encode each message once',
  [MSG, MMS], [('to_file, encode', MSG)],
  ['MMSMessage.encode(), to_file(), from_file()'],
  'histories with several encodes compared to fresh objects; faults by '
  'values that cannot be encoded and files that vanish')

p('C28', 'The SMIL presentation describes exactly the slides',
  'The SMIL of a message is well-formed XML with one par per slide in order, '
  'with its duration, and in each exactly one reference for each image, text '
  'and sound that was put on the slide, with its source, begin and end. Times '
  'are SMIL clock values without loss of milliseconds, texts (UTF-8 of XML '
  'characters) are those given but for normalised white space. The regions '
  'that are referred to are declared and lie within the screen.',
  [I], 'every set of slides, contents and times', 'tests use one slide',
  [MSG], [('smil', MSG)], ['MMSMessage.smil()'],
  'SMIL read by an independent XML parser')

p('C29', 'Slides and data parts keep their invariants',
  'A slide holds at most one picture, text and sound, and an addition that is '
  'refused (a missing file, a wrong type of argument, an end before the begin) '
  'leaves it as it was. A data part states the length, type and octets of its '
  'data or file, and the parts of a message are those of its slides and those added on their own, in order.',
  [H], 'every history of additions to slides and messages',
  'tests add legal content only', [MSG], [('MMSMessagePage, DataPart', MSG)],
  ['MMSMessagePage, DataPart, MMSMessage.data_parts'],
  'random histories against a model, generated files of every type')

p('C30', 'Damaged MMS messages end in a result or an ordinary error',
  'Decoding any truncation, damage or random octets as an MMS message '
  'terminates with a message or an ordinary error, in a number of steps '
  'bounded by the size of the data. Headers and parts that are decoded from '
  'before the damage are those of the intact message. A following intact message decodes as ever.',
  [I, F], 'every truncation point and damage of every message',
  'tests only decode intact messages', [MMS, WSP, IT, MSG],
  [('decode loops', MMS)], ['MMSMessage.from_data()'],
  'all truncation points of captured and generated messages; a step monitor '
  'counts executed lines per octet',
  'runtime monitoring: step-budget monitor and prefix oracle under '
  'injected damage')

p('C31', 'Threads using different message objects do not disturb each other',
  'Encoding and decoding different messages in concurrent threads gives '
  'exactly the results of doing so one after the other.',
  [SC], 'every interleaving of threads that work on different objects',
  'tests are single-threaded', [SUB, DEL, WSP, MMS, IT, MSG, GSM],
  [('no shared mutable state', MMS)], ['all of the public API'],
  'Jython threads run without a global lock; schedules perturbed at line '
  'level; results compared with the sequential ones. Sampled schedules only',
  'runtime monitoring: differential oracle over perturbed thread schedules')

p('C32', 'Message objects are independent of each other and of history',
  'What an object encodes or decodes does not depend on which other objects '
  'were made, changed, encoded or decoded before, nor on failed calls. '
  'Changing one object, or a value it returned, never changes another.',
  [H], 'every interleaved history of operations on several objects',
  'tests make every object in a fresh setting and never look at another',
  [SUB, DEL, UDH, WSP, MMS, MSG, IT], [('per-instance state', MSG)],
  ['all of the public API'],
  'interleaved histories replayed per object alone (projection) and in '
  'reverse order in another process',
  'runtime monitoring: projection (non-interference) oracle over histories')

p('C33', 'Assigned numbers are those of the standards',
  'Each well-known header name, content type, character set and parameter '
  'that the library knows is encoded to and decoded from the number that '
  'WAP-230, the OMA-MMS encapsulation or IANA assigned to it, in the encoding '
  'version that introduced it and the later ones. Each number denotes '
  'exactly one name; unassigned numbers are not taken for a known name.',
  [I, CF], 'every assigned number in every encoding version',
  'tests use some twenty of some three hundred numbers', [WSP, MMS],
  [('tables', WSP)], ['Encoder/Decoder of names'],
  'exhaustive over tables transcribed from the specifications')

p('C34', 'Results do not depend on the process environment',
  'What is encoded, decoded, reported or refused is a function of the objects '
  'and arguments alone: the same calls give the same results in every time '
  'zone, locale, default charset and working directory, with or without a '
  'home directory, and whatever the clock shows.',
  [CF, I], 'every call of the API under every time zone, locale, charset, '
  'working directory and clock',
  'the tests run in one environment at one time',
  [SUB, DEL, UT, WSP, MMS, MSG],
  [('dates and validity periods', UT), ('decode_date_value', WSP),
   ('names, tokens and texts', WSP)],
  ['results and exceptions of all calls, compared between processes'],
  'the same jobs are run in nine environments, each with its own zone',
  'runtime monitoring: comparison of recorded executions')

p('C35', 'Calls have no effect besides their documented one',
  'A call changes nothing but the object it is called on: not the values '
  'passed to it (except for reading on in an iterator), not the tables of the '
  'package or the settings of the process, and no file but the one that '
  'to_file() is given. It prints nothing, seeds no random numbers and leaves '
  'no file open, also when it fails.',
  [I, H], 'every call with every argument and state, successful or not',
  'tests look at results; nothing in them looks at arguments, descriptors, '
  'tables or output after a call', [SUB, DEL, UDH, UT, GSM, WSP, MMS, MSG, IT],
  [('DataPart._read_data and to_file', MSG), ('from_bytes', UDH),
   ('tables', WSP), ('debug', UT)],
  ['arguments, file descriptors, files, output, tables and settings around '
   'every call from outside of the package'],
  'every public function, method and property is wrapped while the workloads '
  'of the other checks run',
  'runtime monitoring: hooks around every call')


def main():
    checks = os.path.join(VERIF, 'vf', 'checks')
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for q in P:
            assert len(q['title']) <= 80, q['title']
            f.write(json.dumps({
                'id': q['id'], 'title': q['title'],
                'statement': q['statement'],
                'quantifier': {'over': q['over'], 'text': q['text']},
                'why_tests_cant': q['why'],
                'anchors': {'files': q['files'],
                            'mechanism': [{'name': n, 'where': w}
                                          for n, w in q['mech']],
                            'observe_at': q['observe'],
                            'hook_needed': None}}) + '\n')
    m = {'version': 1,
         'setup_cmd': 'python3 run.py --selftest',
         'checks': [], 'not_applicable': [],
         'notes': 'No hooks in /repo: every observation is made at the public '
                  'API by the driver (vf/jydriver.py) that runs the working '
                  'tree of /repo under Jython. See DESIGN.md.'}
    for q in P:
        if os.path.exists(os.path.join(checks, q['id'].lower() + '.py')):
            m['checks'].append({
                'property': q['id'],
                'quick_cmd': 'python3 run.py ' + q['id'],
                'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' +
                                q['id'],
                'technique': q['technique'], 'level': 'exploration',
                'level_note': q['level_note']})
        else:
            m['not_applicable'].append({
                'property': q['id'],
                'reason': 'the check is not written yet'})
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
