"""The properties and how each is decided. tools/gen.py derives
properties.jsonl and MANIFEST.json from this table."""

COMMON = [
    'rustc (nightly) lowers the source to MIR faithfully; the same source is compiled for the target',
    'floating point: claim_eq/claim_close/claim_pos compare the real-number functions the code computes; '
    'rounding is bounded separately (claim_in) or not claimed',
    'the engine in /verif/engine and the summaries of core/micromath functions in models.py are trusted',
]

PROPS = {}


def prop(pid, title, statement, over, quant, why, files, mechanism, rule, technique, note, **kw):
    PROPS[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mechanism=mechanism, rule=rule, technique=technique, note=note, **kw)


NOT_APPLICABLE = []   # (id, title, statement, over, quant, why, files, mechanism, reason)


def na(pid, title, statement, over, quant, why, files, mechanism, reason):
    NOT_APPLICABLE.append(dict(pid=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                               mechanism=mechanism, reason=reason))


MEM = 'src/memory/memory_slice.rs'
AI = ('Abstract interpretation of the MIR of /repo together with a scenario (a nondeterministic client program in '
      'harness/src) that is analysed and never run')
PROOF_NOTE = ('Every path of the scenarios over all inputs is covered by the abstract states; an obligation that '
              'cannot be discharged is reported. ')

import defs  # noqa: E402,F401
