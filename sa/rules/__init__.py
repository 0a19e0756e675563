from . import security, basic, qos, context, graph, general
RULES = {}
for m in (security, basic, qos, context, graph, general):
    RULES.update(m.RULES)
