"""What the protocol checks have in common."""
import proto, witness

LEVEL = 'other'
COMMON = (
    'Every entry point of the crate which this property speaks of is taken from rustc\'s type-checked MIR (generic in the item type T and in '
    'the length), and interpreted over abstract values from an arbitrary state of the session which satisfies the protocol invariant '
    '(unknown length n >= 1, unknown indices, unknown remembered availability, unknown flags, unknown contents of every slot); every '
    'branch, loop (by induction) and callee is followed, and a look at an index or flag of a peer yields any value which the peers\' own '
    'rules allow. An obligation is one rule applied to one outcome (path) of one operation, or one violating program of safe code which the compiler has to reject (while it accepts its twin). ')
ASSUMPTIONS = [
    'callers respect the documented unsafe contracts (advance(count <= available), initialisation of zeroed buffers, no use of moved-out items)',
    'buffers have fewer than 2^62 slots and bytes; items are not zero-sized where emptiness matters (C08 excludes them)',
    'callbacks of the user (Clone, Default, Drop, Waker) do not unwind',
    'the standard library functions which the crate calls do what their documentation says (engine/natives.py)',
    'what holds of each operation from every state of the invariant holds of every interleaving of operations (rely-guarantee induction, DESIGN.md)',
]
TRUSTED = ['rustc (parsing, type checking, MIR construction)', '/verif/driver (MIR to JSON)', '/verif/engine (abstract interpreter, linear arithmetic, rules)']
TECHNIQUE = 'abstract interpretation of rustc MIR (relational dataflow with inductive loop summaries, typestate of slots and ordering-aware effect analysis), one obligation per rule and outcome; compile-fail witnesses for what the types must forbid'

FLOORS = {}


def make(prop, g, what, quick, note, floors=None):
    def run(ctx, rep):
        configs = quick if ctx.tier == 'quick' else ['async', 'default', 'vmem', 'noalloc'] if prop != 'C17' else ['vmem']
        configs = [c for c in configs if not (prop in ('C14', 'C15') and c == 'default')]
        proto.run(prop, ctx, rep, configs)
        witness.run(prop, rep, configs)
        for name, least in (floors or {}).items():
            rep.floor(name, least)
    g.update(LEVEL=LEVEL, EXPLANATION=COMMON + what, ASSUMPTIONS=ASSUMPTIONS, TRUSTED=TRUSTED, TECHNIQUE=TECHNIQUE, NOTE=note, run=run)
