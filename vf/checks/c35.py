"""C35 calls have no effect besides their result"""
import json
from .. import pool
from ..core import S, U, A, D, execute
from ..gen import scale

RULE = ('the workloads of the other checks and calls with any arguments, with every public function, '
        'method and property of the package wrapped: around each call from '
        'outside of it the arguments, the open file descriptors, the files '
        'in the directory of the job, what is written to stdout and stderr '
        'and the seeding of the random numbers are watched, and between jobs '
        'the tables of the package and the settings of the process; '
        'distinct = different jobs')
NEED = {'jobs': 4000, 'calls': 15000, 'watched_args': 2500, 'raised': 2000,
        'written': 20, 'state_looks': 60, 'functions': 150, 'sources': 28}
SOURCES = sorted(set(pool.SOURCES + ['c01', 'c05', 'c09', 'c13', 'c19', 'c21',
                                     'c26', 'c33']))

# names of the pinned interface: a helper that is new may do with its
# arguments what it likes
NAMES = """
mms.mms_pdu:MMSEncoder.encode_encoded_string_value
mms.mms_pdu:MMSEncoder.encode_from_value mms.mms_pdu:MMSEncoder.encode_header
mms.mms_pdu:MMSEncoder.encode_message_type_value
mms.mms_pdu:MMSEncoder.encode_mms_field_name
mms.mms_pdu:MMSEncoder.encode_status_value mms.mms_pdu:flatten_list
mms.mms_pdu:MMSDecoder.decode_header mms.wsp_pdu:Decoder.decode_uint_var
mms.wsp_pdu:Encoder.encode_accept_value
mms.wsp_pdu:Encoder.encode_constrained_encoding
mms.wsp_pdu:Encoder.encode_constrained_media
mms.wsp_pdu:Encoder.encode_content_general_form
mms.wsp_pdu:Encoder.encode_content_type_value
mms.wsp_pdu:Encoder.encode_extension_media mms.wsp_pdu:Encoder.encode_header
mms.wsp_pdu:Encoder.encode_integer_value
mms.wsp_pdu:Encoder.encode_long_integer mms.wsp_pdu:Encoder.encode_media_type
mms.wsp_pdu:Encoder.encode_no_value mms.wsp_pdu:Encoder.encode_parameter
mms.wsp_pdu:Encoder.encode_short_integer mms.wsp_pdu:Encoder.encode_short_length
mms.wsp_pdu:Encoder.encode_text_string mms.wsp_pdu:Encoder.encode_text_value
mms.wsp_pdu:Encoder.encode_token_text mms.wsp_pdu:Encoder.encode_uint_8
mms.wsp_pdu:Encoder.encode_uint_var mms.wsp_pdu:Encoder.encode_value_length
mms.wsp_pdu:Encoder.encode_version_value mms.wsp_pdu:get_header_field_names
mms.wsp_pdu:get_well_known_parameters mms.iterator:PreviewIterator
mms.message:MMSMessage.from_data mms.message:MMSMessage.from_file
mms.message:DataPart sms:SmsDeliver sms:SmsSubmit sms.pdu:Pdu
sms.gsm0338:decode sms.gsm0338:encode sms.gsm0338:is_gsm_text
sms.udh:UserDataHeader.from_bytes
sms.udh:UserDataHeader.from_status_report_ref
sms.wap:extract_push_notification sms.wap:is_a_wap_push_notification
utils:FixedOffset utils:FixedOffset.from_timezone utils:bytes_to_str
utils:clean_number utils:datetime_to_absolute_validity utils:encode_bytes
utils:encode_str utils:pack_8bits_to_7bits utils:pack_8bits_to_8bit
utils:pack_8bits_to_ucs2 utils:swap utils:swap_number
utils:timedelta_to_relative_validity utils:to_array utils:to_bytes
utils:unpack_msg utils:unpack_msg2
""".split()
METHODS = [('mms.message:MMSMessage', 'add_data_part add_page encode smil'),
           ('mms.message:MMSMessagePage', 'add_text set_duration add_image '
            'add_audio number_of_parts'),
           ('mms.message:DataPart', 'set_data set_text from_file'),
           ('mms.mms_pdu:MMSDecoder', 'decode_data decode_file'),
           ('mms.mms_pdu:MMSEncoder', 'encode')]


def value(rng, depth=0):
    """any value, of a right or of a wrong type"""
    k = rng.randrange(15 if depth < 2 else 9)
    t = rng.choice(['', 'text/plain', 'a/b', 'Name', 'To', 'Content-Type',
                    'Date', 'utf-8', '1.2', '1.15', 'x', '0691', '+34600123',
                    'm-send-req', 'image/gif', 'a b', '"q', '\x00', '\xe9',
                    'Accept', 'Pragma', 'Charset', '+0200', 'y' * 70])
    if k < 3:
        return S(t)
    if k < 5:
        return U(t + rng.choice(['', '\u4e2d', '\u20ac']))
    if k < 7:
        return rng.choice([0, 1, 5, 30, 31, 127, 128, 255, 256, 70000, -1,
                           True, None])
    if k == 7:
        return rng.choice([{'f': 1.5}, {'obj': 1}, {'td': [0, 600, 0]},
                           {'dt': [2012, 1, 2, 3, 4, 5, 0]},
                           {'long': str(2 ** 64)}])
    if k == 8:
        return A(bytes(rng.choice([0, 1, 5, 31, 65, 97, 128, 141, 255])
                       for _ in range(rng.randrange(9))))
    l = [value(rng, depth + 1) for _ in range(rng.randrange(5))]
    if k < 11:
        return l
    if k == 11:
        return [rng.choice([0, 1, 2, 3, 65, 97, 128, 255])
                for _ in range(rng.randrange(12))]
    if k == 12:
        return {'t': l}
    if k == 13:
        return {'t': [S('a/b'), D({'Name': 'x', 'q': 1})]}
    return {'d': [[S('Name'), S('x')], [S('k%d' % rng.randrange(9)),
                                        value(rng, depth + 1)]]}


def odd(rng, n):
    """calls with any arguments; only their effects are judged"""
    for i in range(n):
        s = []
        if i % 4 == 3:
            cls, ms = rng.choice(METHODS)
            s.append(['c', 'o', 'messaging.' + cls, []])
            for _ in range(rng.randint(1, 4)):
                v = value(rng)
                if rng.random() < .2:
                    s.append(['c', 'v', rng.choice([
                        'messaging.mms.message:DataPart',
                        'messaging.mms.message:MMSMessage',
                        'messaging.mms.message:MMSMessagePage']), []])
                    v = {'v': '$v'}
                m = rng.choice(ms.split())
                a = [v] + [value(rng) for _ in range(rng.choice([0, 0, 1, 2]))]
                if m in ('encode', 'smil', 'number_of_parts'):
                    a = a[1:] if rng.random() < .8 else a
                if m in ('from_file', 'decode_file', 'add_image', 'add_audio'):
                    s.append(['h', None, 'write_file',
                              [{'p': 'f%d' % i}, S('x' * i)]])
                    a[0] = {'p': rng.choice(['f%d', 'g%d']) % i}
                s.append(['c', None, '$o.' + m, a])
        else:
            f = NAMES[i % len(NAMES)]
            a = [value(rng) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3]))]
            if f.endswith('from_file'):
                s.append(['h', None, 'write_file', [{'p': 'f%d' % i}, S('x')]])
                a = [{'p': rng.choice(['f%d', 'g%d']) % i}]
            if f.endswith(':DataPart') and a:
                a[0] = {'p': 'none'}
            s.append(['c', None, 'messaging.' + f, a])
        yield s


def setters(rng, n):
    """objects with any values, and then used"""
    for i in range(n):
        k = i % 4
        s = []
        if k < 2:
            s.append(['c', 'o', 'messaging.sms:SmsSubmit',
                      [S('+34600123'), S('hello') if k else value(rng)]])
            for _ in range(rng.randint(0, 3)):
                s.append(['s', '$o.' + rng.choice(
                    ['text', 'number', 'csca', 'fmt', 'pid', 'klass', 'ref',
                     'rand_id', 'validity', 'request_status', 'id_list']),
                    value(rng)])
            s.append(['c', None, '$o.to_pdu', []])
            s.append(['g', None, '$o.text'])
            if rng.random() < .5:
                s.append(['s', '$o.text', S('well')])
                s.append(['c', None, '$o.to_pdu', []])
        elif k == 2:
            s.append(['c', 'o', 'messaging.sms:SmsDeliver', [
                S('07911326040011F5040B911326880736F40000111081017362401'
                  '654747A0E4ACF416110BD3CA783DAE5F93C7C2E03')]])
            s.append(['s', '$o.pdu', value(rng)])
            s.append(['g', None, '$o.data'])
        else:
            s.append(['c', 'm', 'messaging.mms.message:MMSMessage', []])
            for _ in range(rng.randint(1, 3)):
                s.append(['si', '$m.headers', S(rng.choice(
                    ['To', 'From', 'Date', 'Priority', 'Content-Type',
                     'Message-Type', 'X-Mms-Version', 'Expiry', 'Subject',
                     'X-Any', 'Delivery-Report', 'Message-Size'])),
                    value(rng)])
            if rng.random() < .5:
                s.append(['c', 'p', 'messaging.mms.message:DataPart', []])
                s.append(['c', None, '$p.set_data', [value(rng), value(rng)]])
                if rng.random() < .5:
                    s.append(['si', '$p.headers', S(rng.choice(
                        ['Content-ID', 'Accept', 'Date', 'X-b'])),
                        value(rng)])
                s.append(['c', None, '$m.add_data_part', [{'v': '$p'}]])
            s.append(['c', None, '$m.encode', []])
            s.append(['c', None, '$m.to_file', [{'p': 'f%d' % i}]])
        yield s


def octs(rng, n=12):
    return [rng.choice([0, 1, 2, 3, 5, 8, 65, 97, 128, 255])
            for _ in range(rng.randrange(n))]


def typed(rng, n):
    """containers where containers belong: they have to stay as they are"""
    ie = [[0, 3, 7, 2, 1], [8, 4, 1, 2, 3, 1], [5, 4, 11, 132, 35, 240], [37, 0]]
    for i in range(n):
        a = A(bytes(octs(rng)))
        d = D({rng.choice(['Name', 'Charset', 'Type', 'x', 'Start']):
               rng.choice(['utf-8', 'v', 'a b', 5]) for _ in range(3)})
        ct = S(rng.choice(['text/plain', 'x/y', 'image/gif']))
        k = i % 14
        if k == 0:
            f, v = 'utils:swap', [rng.choice([octs(rng), list('abcde')])]
        elif k == 1:
            f, v = 'utils:encode_bytes', [rng.choice([a, octs(rng)])]
        elif k == 2:
            f, v = 'utils:to_bytes', [octs(rng)]
        elif k == 3:
            f, v = 'utils:unpack_msg2', [rng.choice([a, octs(rng)])]
        elif k == 4:
            u = bytes(sum(rng.sample(ie, rng.randrange(4)), []))
            f, v = 'sms.udh:UserDataHeader.from_bytes', [
                rng.choice([A(u), list(u)])]
        elif k == 5:
            f, v = 'mms.mms_pdu:flatten_list', [[octs(rng), [octs(rng), 5]]]
        elif k == 6:
            f, v = 'mms.wsp_pdu:Encoder.encode_content_type_value', [ct, d]
        elif k == 7:
            f, v = 'mms.wsp_pdu:Encoder.encode_content_general_form', [ct, d]
        elif k == 8:
            f, v = 'mms.mms_pdu:MMSEncoder.encode_header', [
                S('Content-Type'), rng.choice([S('x'), {'t': [ct, d]},
                                               [ct, d]])]
        elif k == 9:
            f, v = 'mms.message:MMSMessage.from_data', [a]
        elif k == 10:
            f, v = 'mms.iterator:PreviewIterator', [rng.choice([a, octs(rng)])]
        elif k == 11:
            f, v = rng.choice([
                'mms.wsp_pdu:get_well_known_parameters',
                'mms.wsp_pdu:get_header_field_names']), [
                S('1.%d' % rng.randint(1, 4))]
        elif k == 12:
            f, v = 'mms.wsp_pdu:Encoder.encode_parameter', [
                S(rng.choice(['Name', 'Charset', 'x', 'Secure', 'Q'])),
                rng.choice([S('utf-8'), 5, S('v w')]), S('1.%d' % rng.randint(1, 4))]
        else:
            yield [['c', 'o', 'messaging.mms.message:DataPart', []],
                   ['c', None, '$o.set_data', [rng.choice([a, S('x')]), ct, d]],
                   ['g', None, '$o.data'], ['g', None, '$o.headers']]
            continue
        yield [['c', None, 'messaging.' + f, v]]


def custom(ctx, rng, replay):
    if replay:
        jobs = [json.load(open(replay))['case']]
    else:
        jobs = []
        for src, l in sorted(pool.jobs(rng, scale(ctx, 45, 700), 6000,
                                       SOURCES).items()):
            for s in l:
                jobs.append({'s': pool.place(s, 'j%d' % len(jobs)),
                             'src': src, 'fx': {'dir': 'j%d' % len(jobs)}})
        for src, g in (('odd', odd(rng, scale(ctx, 3000, 60000))),
                       ('setters', setters(rng, scale(ctx, 800, 12000))),
                       ('typed', typed(rng, scale(ctx, 600, 6000)))):
            for s in g:
                jobs.append({'s': pool.place(s, 'j%d' % len(jobs)),
                             'src': src, 'fx': {'dir': 'j%d' % len(jobs)}})
        rng.shuffle(jobs)
    for k, j in enumerate(jobs):
        if k % 12 >= 6 and k % 12 < 12 and (k // 12) % 2 == 0 or replay or \
                k >= len(jobs) - 6:
            j['fx']['look'] = 1
    run = execute(jobs, shards=1 if replay else 6,
                  opts={'effects': 1, 'cwd': '../cwd'})
    ctx.hit('jobs', len(jobs))
    for c, f in run.fx:
        for k, n in c.items():
            ctx.hit(k, n)
        for n in f:
            ctx.see('functions', n)
    for k, j in enumerate(jobs):
        if k not in run.res:
            continue            # another property
        ctx.see('sources', j['src'])
        r = run.res[k].pop()
        assert r[0] == 'fx'
        for kind, what in r[1]:
            if kind == 'argument' and j['src'] in ('odd', 'setters'):
                continue        # of a type it does not take
            ctx.viol.append((kind, '%s: %s: %s' % (j['src'], kind, what), j))
    ctx.evaluations = len(jobs)
    samples = [{'case': str(j['s'])[:300], 'observed': str(run.res.get(k))[:300]}
               for k, j in list(enumerate(jobs))[:4]]
    return jobs, run, set(json.dumps(j['s']) for j in jobs), samples
