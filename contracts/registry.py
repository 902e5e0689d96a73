"""property id -> (helper contracts, units)"""
from . import callflow, calls, constness, convert, debugger, frames, heap, lexer, library, ops, parser, scopes, stmts, text, typesys, values, versions
from .objects import INTS, FLOATS


def interp(aspects, names, exprs=(), nodes=()):
    """units of the interpreter functions named by prefix"""
    u = stmts.flow_units(set(aspects))
    out = [v for k, v in u.items() if any(k == n or n.endswith("*") and k.startswith(n[:-1]) for n in names)]
    d = stmts.dispatch_units(set(aspects), exprs, nodes)
    return out + list(d.values())


FLOW = ("flow", "value")
PROPS = {
    "C01": lambda P: ([], ops.arith_units(INTS)),
    "C02": lambda P: ([], ops.arith_units(FLOATS)),
    "C03": lambda P: ([], ops.cmp_units(("bool", "double", "float", "int16", "int", "int64", "string")) + interp(FLOW, ("cmp *",))),
    "C04": lambda P: ([], interp(FLOW, ("logic *", "unary NOT")) + values.true_units() + values.not_units()),
    "C05": lambda P: ([], convert.text_op_units() + convert.shown_units()),
    "C06": lambda P: ([], convert.stored_units() + convert.store_units() + convert.type_units() + convert.cast_units()
                      + convert.assign_units() + convert.method_assign_units() + convert.shown_units()),
    "C07": lambda P: ([], heap.table_units() + heap.remove_unit() + heap.reference_units() + heap.var_units() + heap.end_units() + heap.heap_end_unit()),
    "C08": lambda P: ([], scopes.resolve_units() + scopes.define_units() + scopes.object_units() + scopes.name_units() + constness.this_unit() + constness.part_unit()
                      + interp(("scope",), ("for", "foreach", "block", "try", "decl"))),
    "C09": lambda P: ([], calls.signature_units() + calls.choice_units() + calls.object_choice_units() + calls.method_definition_units()
                      + calls.dotted_choice_unit() + list(callflow.call_units(FLOW).values())),
    "C10": lambda P: ([], interp(FLOW, ("if", "list", "block", "ternary", "return", "exit", "print", "expr", "assert", "break", "continue", "delete"),
                                 ("TernaryExpression",), None)),
    "C11": lambda P: ([], interp(FLOW, ("while", "for", "foreach", "switch", "block", "list", "break", "continue"),
                                 (), ("WhileStatement", "ForStatement", "ForeachStatement", "SwitchStatement", "BreakStatement", "ContinueStatement"))),
    "C12": lambda P: ([], interp(FLOW, ("try", "throw", "block"), (), ("TryStatement", "ThrowStatement")) + heap.instance_unit()),
    "C13": lambda P: ([], interp(("balance",), ("*",), None, None) + list(callflow.call_units(("balance",)).values())),
    "C14": lambda P: ([], interp(FLOW, ("assign", "assignexpr", "decl", "binary", "copy", "is", "cast", "typeid", "scope", "unary *", "lunary *", "literal *"),
                                 None, ("AssignmentStatement", "TypeDeclaration", "TypeInference")) + values.validate_units()),
    "C15": lambda P: ([], typesys.part_units() + typesys.table_units() + typesys.builtin_unit() + typesys.enumeration_unit() + typesys.object_unit() + typesys.resolve_units()
                      + parser.level_units(True) + parser.infix_unit(True) + constness.assign_unit(True) + constness.declaration_units(True) + constness.cast_unit(True)),
    "C19": lambda P: ([], debugger.condition_units() + debugger.point_units() + debugger.debugger_units() + interp(("debug",), ("throw",), (), None)),
    "C20": lambda P: ([], constness.flag_units() + constness.incdec_unit() + constness.assign_unit() + constness.call_unit() + constness.this_unit() + constness.part_unit()
                      + constness.declaration_units() + constness.begin_unit() + constness.use_unit()),
    "C21": lambda P: ([], frames.frame_units() + frames.thread_units() + list(callflow.call_units(("balance",)).values())),
    "C16": lambda P: ([], lexer.word_units() + lexer.merge_units() + lexer.scan_unit()),
    "C23": lambda P: ([], parser.level_units() + parser.infix_unit() + parser.postfix_unit() + parser.term_units() + parser.ternary_unit() + constness.use_unit() + constness.arguments_unit()
                      + constness.cast_unit()),
    "C24": lambda P: ([], parser.form_units() + parser.choice_units() + parser.seq_unit() + parser.switch_unit() + parser.try_unit()
                      + constness.declaration_units() + constness.statement_unit()),
    "C17": lambda P: ([], versions.version_units()),
    "C25": lambda P: ([], library.numeric_units() + library.provided_units(True, False)),
    "C26": lambda P: ([], library.text_units() + library.provided_units(False, True)),
    "C18": lambda P: ([], text.string_units() + text.truth_unit() + text.token_units()),
}

# source directories read besides the language core
EXTRA = {"C25": library.EXTRA[:1], "C26": library.EXTRA[1:]}
