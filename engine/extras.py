"""Checks that read the compiled program as a whole: compile witnesses,
target builds, call graph and data layout."""
import json, os, subprocess, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.join(os.path.dirname(VERIF), 'repo')     # as the path dependency of the scenarios
CRATE = 'embedded_audio_tools'


def ev(root, kind, msg, site, detail=''):
    return {'root': root, 'kind': kind, 'msg': msg, 'site': site, 'detail': detail, 'config': 'checked', 'stack': [], 'trace': [],
            'havoc': {}}


def _env(tmp, sub):
    env = dict(os.environ)
    for k in ('RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS'):
        env.pop(k, None)
    env['CARGO_TARGET_DIR'] = os.path.join(tmp, sub)
    env['CARGO_TERM_COLOR'] = 'never'
    return env


# ------------------------------------------------------------- witnesses
def run_witnesses(tmp, pid, prefixes):
    """Type check the witness programs. `<p>_no_x` must be rejected while its
    twin `<p>_ok_x`, which differs in the offending statement only, is
    accepted; a `<p>_ok_x` without a twin states that the program is legal."""
    wdir = os.path.join(VERIF, 'witness')
    r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--locked', '--bins', '--keep-going',
                        '--message-format=json'], cwd=wdir, env=_env(tmp, 'witness'), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True)
    errs, done, libok = {}, set(), False
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get('reason') == 'compiler-message' and m['message']['level'] == 'error':
            c = m['message'].get('code') or {}
            errs.setdefault(m['target']['name'], []).append((c.get('code'), m['message']['message']))
        elif m.get('reason') == 'compiler-artifact':
            done.add(m['target']['name'])
            if m['target']['name'].replace('-', '_') == CRATE:
                libok = True
    out = {'violations': [], 'errors': [], 'obligations': 0, 'discharged': 0, 'coverage': {}}
    if not libok:
        out['errors'].append('the crate does not compile for the witness programs\n' + r.stderr[-1500:])
        return out
    rows = []
    names = sorted(f[:-3] for f in os.listdir(os.path.join(wdir, 'src', 'bin')))
    for n in names:
        if not n.startswith(prefixes):
            continue
        kind = n.split('_')[1]
        if kind == 'no':
            twin = n.replace('_no_', '_ok_', 1)
            if twin not in done:
                out['errors'].append('witness %s: the legal twin %s is not accepted: %s' % (n, twin, errs.get(twin)))
                continue
            out['obligations'] += 1
            if n in done:
                out['violations'].append(ev(n, 'accepted program', 'a program that must be rejected type checks',
                                            'witness/src/bin/%s.rs' % n,
                                            'the compiler accepts this program against the current source'))
            elif n in errs:
                out['discharged'] += 1
            else:
                out['errors'].append('witness %s was not compiled' % n)
            rows.append({'program': n, 'must': 'be rejected', 'result': 'accepted' if n in done else errs.get(n)})
        elif kind == 'ok' and n.replace('_ok_', '_no_', 1) not in names:
            out['obligations'] += 1
            if n in done:
                out['discharged'] += 1
            elif n in errs:
                out['violations'].append(ev(n, 'rejected program', 'a program that must be accepted does not type check',
                                            'witness/src/bin/%s.rs' % n, '; '.join('%s %s' % e for e in errs[n])))
            else:
                out['errors'].append('witness %s was not compiled' % n)
            rows.append({'program': n, 'must': 'be accepted', 'result': 'accepted' if n in done else errs.get(n)})
    out['coverage'] = {'witness_programs': rows}
    return out


def witness_m05(PROG, tmp, tier):
    return run_witnesses(tmp, 'M05', ('m05_',))


def witness_r06(PROG, tmp, tier):
    return run_witnesses(tmp, 'R06', ('r06_',))


def witness_r07(PROG, tmp, tier):
    return run_witnesses(tmp, 'R07', ('r07_',))


# ------------------------------------------------------------ bare metal
TARGETS = {'quick': ['thumbv7em-none-eabihf'],
           'thorough': ['thumbv7em-none-eabihf', 'thumbv6m-none-eabi', 'riscv32imc-unknown-none-elf', 'aarch64-unknown-none']}


def bare_metal(PROG, tmp, tier):
    out = {'violations': [], 'errors': [], 'obligations': 0, 'discharged': 0, 'coverage': {}}
    rows = []
    for t in TARGETS.get(tier, TARGETS['quick']):
        r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--locked', '--lib', '--manifest-path',
                            os.path.join(REPO, 'Cargo.toml'), '-Zbuild-std=core', '--target', t,
                            '--message-format=json'],
                           cwd=tmp, env=_env(tmp, 'bare-' + t), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        core = lib = False
        errs = []
        for line in r.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get('reason') == 'compiler-artifact':
                core |= m['target']['name'] == 'core'
                lib |= m['target']['name'].replace('-', '_') == CRATE
            elif m.get('reason') == 'compiler-message' and m['message']['level'] == 'error':
                errs.append((m['target']['name'], m['message']['message'],
                             (m['message'].get('spans') or [{}])[0].get('file_name', '')))
        if not core:
            out['errors'].append('core does not build for %s: %s' % (t, r.stderr[-800:]))
            continue
        out['obligations'] += 1
        if lib:
            out['discharged'] += 1
        else:
            out['violations'].append(ev('build for ' + t, 'target build', 'the crate does not type check on top of core alone',
                                        (errs[0][2] if errs else CRATE), '; '.join('%s: %s (%s)' % e for e in errs)[:600] or r.stderr[-600:]))
        shutil.rmtree(os.path.join(tmp, 'bare-' + t), ignore_errors=True)
        rows.append({'target': t, 'accepted': lib})
    out['coverage'] = {'targets': rows}
    return out


ALLOWED = {'core', 'micromath', 'tock_registers', CRATE, 'harness', 'compiler_builtins'}


def callees(p, f):
    """Instances a body refers to: direct calls, function items passed on as
    values (closures, fn pointers) and drop glue."""
    out = set()

    def walk(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == 'inst' and isinstance(x[1], int):
                out.add(x[1])
            else:
                for y in x:
                    walk(y)
    walk(f.get('blocks') or [])
    return out


def call_graph(PROG, tmp, tier):
    """No recursion, no foreign code, no shared mutable state."""
    out = {'violations': [], 'errors': [], 'obligations': 0, 'discharged': 0, 'coverage': {}}
    p = PROG['checked']
    fns = p.fns
    ids = range(len(fns)) if isinstance(fns, list) else fns.keys()
    g = {i: [c for c in callees(p, fns[i]) if c in fns or isinstance(fns, list)] for i in ids}
    krates = {}
    for i in ids:
        krates.setdefault(fns[i]['krate'], []).append(fns[i]['def'])
    for k in sorted(krates):
        out['obligations'] += 1
        if k in ALLOWED:
            out['discharged'] += 1
        else:
            for d in sorted(set(krates[k]))[:3]:
                out['violations'].append(ev('call graph', 'foreign code', 'a reachable function needs a crate besides core', d, 'crate ' + k))
    # recursion: strongly connected components that contain a crate function
    own = [i for i in ids if fns[i]['krate'] == CRATE]
    index, low, st, on, comps, cnt = {}, {}, [], set(), [], [0]

    def scc(v0):
        work = [(v0, iter(g[v0]))]
        index[v0] = low[v0] = cnt[0]
        cnt[0] += 1
        st.append(v0)
        on.add(v0)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in index:
                    index[w] = low[w] = cnt[0]
                    cnt[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(g[w])))
                    adv = True
                    break
                if w in on:
                    low[v] = min(low[v], index[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == index[v]:
                c = []
                while True:
                    w = st.pop()
                    on.discard(w)
                    c.append(w)
                    if w == v:
                        break
                comps.append(c)
    for v in own:
        if v not in index:
            scc(v)
    rec = {}
    for c in comps:
        if len(c) > 1 or c[0] in g[c[0]]:
            names = sorted({fns[i]['def'] for i in c})
            if any(fns[i]['krate'] == CRATE for i in c):
                rec[names[0]] = names
    defs = sorted({fns[i]['def'] for i in own})
    out['obligations'] += len(defs)
    out['discharged'] += len(defs) - len(rec)
    for n, names in sorted(rec.items()):
        out['violations'].append(ev('call graph', 'recursion', 'stack use is not bounded: recursive call', n, ' -> '.join(names)))
    for s in p.statics:
        out['obligations'] += 1
        if s['mutable']:
            out['violations'].append(ev('statics', 'shared state', 'process wide mutable state', s['name']))
        else:
            out['discharged'] += 1
    out['coverage'] = {'call_graph': {'functions': len(defs), 'edges': sum(len(x) for x in g.values()),
                                      'crates': {k: len(set(v)) for k, v in krates.items()}, 'statics': len(p.statics)}}
    return out


# ---------------------------------------------------------------- layout
REPR_C = ['AllPass', 'Comb', 'DelayLine', 'Biquad', 'SoftPhaseAccumulator', 'FunctionalOscillator', 'filter::BiquadCoeffs',
          'oscillator::Waveform', 'envelopes::AudioRateADSR', 'envelopes::EnvelopeState', 'memory_access::MemorySlice',
          'filter::butterworth::ButterworthType']
TRANSPARENT = ['memory_access::Mutable', 'memory_access::NonMutable']
ENUMS = {'oscillator::Waveform': ['Sine', 'Rectangle', 'Sawtooth', 'Triangle'],
         'filter::butterworth::ButterworthType': ['Lowpass', 'Highpass', 'Allpass', 'Notch', 'Bell', 'LowShelf'],
         'envelopes::EnvelopeState': ['Idle', 'Attack', 'Decay', 'Release', 'Sustain']}
LEADING = {'filter::BiquadCoeffs': ['b0', 'b1', 'b2', 'a1', 'a2']}


def layout(PROG, tmp, tier):
    out = {'violations': [], 'errors': [], 'obligations': 0, 'discharged': 0, 'coverage': {}}
    p = PROG['checked']
    adts = {a['name']: a for a in p.adts}
    rows = []

    def need(ok, site, msg, detail=''):
        out['obligations'] += 1
        if ok:
            out['discharged'] += 1
        else:
            out['violations'].append(ev('layout', 'layout', msg, CRATE + '::' + site, detail))
        rows.append({'type': site, 'rule': msg, 'ok': bool(ok)})

    for names, flag, what in ((REPR_C, 'is_c: true', 'repr(C)'), (TRANSPARENT, 'is_transparent: true', 'repr(transparent)')):
        for n in names:
            a = adts.get(CRATE + '::' + n)
            if a is None:
                out['errors'].append('type %s not found' % n)
                continue
            need(flag in a['repr'], n, 'is ' + what, a['repr'])
            if flag == 'is_c: true':
                need('pack: None' in a['repr'] and 'int: None' in a['repr'], n, 'has no packing or discriminant type attribute', a['repr'])
    for n, vs in ENUMS.items():
        a = adts.get(CRATE + '::' + n)
        if a is None:
            continue
        t = p.types[a['ty']]
        have = {v['name']: v['discr'] for v in t['variants']}
        for i, v in enumerate(vs):
            need(have.get(v) == str(i), n, 'variant %s has discriminant %d' % (v, i), str(have))
        need(t['layout']['size'] == 4, n, 'has the size of a C enum', str(t['layout']['size']))
    for n, fs in LEADING.items():
        seen = False
        for t in p.types:
            if t.get('def', '').startswith(CRATE + '::' + n) and t['k'] == 'struct':
                seen = True
                fld = t['variants'][0]['fields']
                off = t['layout']['fields']
                for i, f in enumerate(fs):
                    pos = [o for o, x in zip(off, fld) if x['name'] == f]
                    need(pos == [4 * i], n, 'field %s lies at offset %d' % (f, 4 * i), str(pos))
        if not seen:
            out['errors'].append('no instance of %s' % n)
    for t in p.types:
        if t.get('def', '').startswith(CRATE + '::memory_access::MemorySlice') and t['k'] == 'struct':
            need(t['layout']['size'] == 16 and t['layout']['align'] == 8, 'memory_access::MemorySlice',
                 'is a pointer and a length', str(t['layout']))
            fld = t['variants'][0]['fields']
            off = t['layout']['fields']
            for x, o in zip(fld, off):
                if p.types[x['ty']]['k'] in ('uint', 'int') or o not in (0, 8):
                    need(o == 8, 'memory_access::MemorySlice', 'the length follows the pointer', '%s at %s' % (x['name'], o))
    out['coverage'] = {'layout': rows}
    return out
