from . import debugdiff, effects, errors, header, insn, layout, memory, panics, program, stream, wiring

REGISTRY = {}
for m in (effects, errors, debugdiff, stream, header, insn, layout, program, wiring, memory, panics):
    REGISTRY.update(m.CHECKS)
