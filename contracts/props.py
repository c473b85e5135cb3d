"""What decides each property: sources, contract modules, replay driver, assumptions."""

CORE = ['base/exceptions.cpp', 'base/log_severity.cpp', 'base/scope_guard.cpp', 'procedure/execution_status.cpp',
        'procedure/procedure_preamble.cpp', 'runner/breakpoint.cpp', 'runner/job_command_queue.cpp',
        'runner/job_commands.cpp', 'runner/job_state_monitor.cpp', 'runner/job_states.cpp']
INSTR = ['instructions/%s.cpp' % x for x in (
    'instruction', 'compound_instruction', 'decorator_instruction', 'sequence', 'fallback', 'reactive_sequence',
    'reactive_fallback', 'parallel_sequence', 'async_wrapper', 'async', 'inverter', 'force_success', 'repeat', 'for',
    'choice')]
RUN = ['runner/breakpoint_manager.cpp', 'runner/runner.cpp', 'runner/async_runner.cpp', 'runner/local_job.cpp',
       'instructions/instruction_tree.cpp', 'procedure/procedure.cpp']
REG = ['instructions/instruction_registry.cpp', 'variables/variable_registry.cpp']
MAPS = ['instructions/instruction_tree.cpp', 'runner/instruction_map.cpp', 'runner/variable_map.cpp', 'runner/job_map.cpp',
        'runner/instruction_info_utils.cpp', 'runner/instruction_info.cpp', 'runner/workspace_info.cpp', 'runner/variable_info.cpp']
WS = ['procedure/workspace.cpp']
ATTR = ['attributes/%s.cpp' % x for x in ('attribute_handler', 'attribute_definition', 'attribute_properties', 'attribute_validator',
                                          'attribute_utils', 'concrete_constraints', 'constraint')] + [
    'instructions/instruction_helper.cpp', 'instructions/instruction.cpp', 'variables/variable.cpp', 'procedure/procedure.cpp']
VARS = ['variables/%s.cpp' % x for x in ('local_variable', 'file_variable')]
INPUT = ['base/%s.cpp' % x for x in ('async_input_adapter', 'i_user_input_future')]
ASK = ['instructions/%s.cpp' % x for x in ('instruction', 'compound_instruction', 'input', 'user_choice', 'user_confirmation')] + [
    'runner/user_interface.cpp']
TIME = ['instructions/%s.cpp' % x for x in ('instruction', 'instruction_utils', 'wait', 'wait_for_variable', 'wait_for_variables')] + ['procedure/procedure.cpp']
DATA = ['instructions/%s.cpp' % x for x in (
    'copy', 'increment', 'decrement', 'equals', 'lessthan', 'lessthanorequal', 'greaterthan', 'greaterthanorequal', 'add_element', 'add_member',
    'output', 'message', 'var_exists', 'reset_variable', 'condition', 'copy_from_procedure', 'copy_to_procedure', 'log_instruction')]
INFO = ['runner/%s.cpp' % x for x in ('instruction_info_utils', 'variable_utils', 'job_info_utils', 'instruction_info', 'variable_info',
                                       'workspace_info', 'job_info', 'attribute_info', 'constants')] + [
    'base/%s.cpp' % x for x in ('user_input_reply', 'user_input_request', 'anyvalue_utils')]
PROC = ['procedure/procedure_store.cpp', 'procedure/procedure_context.cpp']
TREE = ['parser/%s.cpp' % x for x in ('procedure_parser', 'instruction_parser', 'variable_parser', 'procedure_to_treedata_utils')] + [
    'procedure/procedure.cpp']
WRAP = ['-Wl,--wrap=pthread_mutex_lock', '-Wl,--wrap=pthread_mutex_unlock']

PROPS = {
    'C01': dict(tus=CORE, modules=['core'], driver='c01.cpp', link=CORE),
    'C02': dict(tus=CORE, modules=['core'], driver='c02.cpp', link=CORE, flavours=['tsan'], libs=WRAP,
                assumptions=['the hook handed to an urgent push does not use the queue it is called from']),
    'C03': dict(tus=CORE, modules=['core'], driver='c03.cpp', link=CORE,
                assumptions=['guarded actions do not throw and do not touch the guard that runs them']),
    'C04': dict(tus=CORE + ['tu/callbacks.cpp'], modules=['core', 'callbacks'], driver='c04.cpp', link=CORE,
                flavours=['asan', 'tsan'],
                assumptions=['the template is verified for the argument lists (), (int) and (const string&, bool)']),
    'C05': dict(tus=CORE, modules=['core'], driver='c05.cpp', link=CORE),
    'C06': dict(tus=CORE + INSTR + ASK[2:], modules=['core', 'dto', 'instr', 'asking'], driver='c06.cpp', full=True, flavours=['asan', 'tsan']),
    'C07': dict(tus=CORE + INSTR, modules=['core', 'dto', 'instr'], driver='c07.cpp', full=True),
    'C08': dict(tus=CORE + INSTR, modules=['core', 'dto', 'instr'], driver='c08.cpp', full=True),
    'C09': dict(tus=CORE + INSTR, modules=['core', 'dto', 'instr'], driver='c09.cpp', full=True, budget=120, flavours=['asan']),
    'C10': dict(tus=CORE + INSTR, modules=['core', 'dto', 'instr'], driver='c10.cpp', full=True),
    'C11': dict(tus=CORE + INSTR, modules=['core', 'dto', 'instr'], driver='c11.cpp', full=True),
    'C12': dict(tus=CORE + INSTR, modules=['core', 'dto', 'instr'], driver='c12.cpp', full=True, flavours=['asan', 'tsan']),
    'C13': dict(tus=CORE + INSTR, modules=['core', 'dto', 'instr'], driver='c13.cpp', full=True),
    'C20': dict(tus=CORE + RUN, modules=['core', 'dto', 'instr', 'run'], driver='c20.cpp', full=True),
    'C21': dict(tus=CORE + RUN, modules=['core', 'dto', 'instr', 'run'], driver='c21.cpp', full=True, flavours=['asan', 'tsan']),
    'C22': dict(tus=CORE + MAPS, modules=['core', 'dto', 'instr', 'maps'], driver='c22.cpp', full=True),
    'C26': dict(tus=CORE + REG, modules=['core', 'reg'], driver='c26.cpp', full=True),
    'C14': dict(tus=CORE + ATTR, modules=['core', 'dto', 'attrs'], driver='c14.cpp', full=True,
                assumptions=['attribute lists hold unique names on entry (every function under contract keeps that)']),
    'C15': dict(tus=CORE + ATTR, modules=['core', 'dto', 'attrs'], driver='c15.cpp', full=True),
    'C18': dict(tus=CORE + ATTR + VARS, modules=['core', 'callbacks', 'dto', 'attrs', 'vars'], driver='c18.cpp', full=True, flavours=['asan', 'tsan'],
                assumptions=['the hooks of a concrete variable do not touch the private members of Variable (they cannot: C++ access control)',
                             'reading an attribute twice from an unchanged handler gives the same text']),
    'C23': dict(tus=CORE + INFO, modules=['core', 'dto', 'info'], driver='c23.cpp', full=True),
    'C30': dict(tus=CORE + TREE, modules=['core', 'dto', 'tree'], driver='c30.cpp', full=True),
    'C24': dict(tus=CORE + INPUT + ASK, modules=['core', 'dto', 'instr', 'inputs', 'asking'], driver='c24.cpp', full=True, flavours=['asan', 'tsan']),
    'C25': dict(tus=CORE + TIME, modules=['core', 'dto', 'instr', 'time'], driver='c25.cpp', full=True, solver_ms=60000),
    'C29': dict(tus=CORE + ATTR + DATA, modules=['core', 'dto', 'attrs', 'data'], driver='c29.cpp', full=True),
    'C28': dict(tus=CORE + ATTR + PROC, modules=['core', 'dto', 'attrs', 'proc'], driver='c28.cpp', full=True),
    'C27': dict(tus=CORE + ATTR + PROC, modules=['core', 'dto', 'attrs', 'proc'], driver='c27.cpp', full=True),
    'C17': dict(tus=CORE + WS, modules=['core', 'callbacks', 'dto', 'ws'], driver='c17.cpp', full=True),
    'C16': dict(tus=CORE + WS, modules=['core', 'callbacks', 'dto', 'ws'], driver='c16.cpp', full=True),
    'C19': dict(tus=CORE + RUN, modules=['core', 'dto', 'instr', 'run'], driver='c19.cpp', full=True),
    'C32': dict(tus=CORE + RUN + [x for x in MAPS if x not in RUN] + ['runner/job_interface_adapter.cpp'], modules=['core', 'dto', 'instr', 'maps', 'run', 'job'],
                driver='c32.cpp', full=True,
                assumptions=['there are fewer than 2^32 instructions', 'reports do not come from two threads at once']),
}

NOT_APPLICABLE = {
    'C31': 'liveness over whole schedules (bounded time to finish and to wake): a contract speaks about one call that '
           'returns; progress needs fairness of the scheduler and of user code, which no contract here can express',
}
