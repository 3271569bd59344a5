use super::*;
use crate::*;
pub fn next(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let mut e = Enumerator::expect_initialized(lfp.self_val())?;
    e.next(vm, globals)
}

pub fn next_values(
    vm: &mut Executor,
    globals: &mut Globals,
    lfp: Lfp,
    _: BytecodePtr,
) -> Result<Value> {
    let mut e = Enumerator::expect_initialized(lfp.self_val())?;
    Ok(e.next_values(vm, globals)?.into())
}

pub fn peek(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let mut e = Enumerator::expect_initialized(lfp.self_val())?;
    e.peek(vm, globals)
}

pub fn peek_values(
    vm: &mut Executor,
    globals: &mut Globals,
    lfp: Lfp,
    _: BytecodePtr,
) -> Result<Value> {
    let mut e = Enumerator::expect_initialized(lfp.self_val())?;
    Ok(e.peek_values(vm, globals)?.into())
}

pub fn rewind(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let mut e = Enumerator::expect_initialized(lfp.self_val())?;
    // CRuby's `enumerator_rewind` first asks the source to rewind, if it
    // knows how (`rb_check_funcall(e->obj, id_rewind, 0, 0)`), then drops
    // the external-iteration state.
    let obj = e.obj;
    vm.invoke_method_if_exists(globals, IdentId::get_id("rewind"), obj, &[], None, None)?;
    e.rewind_external();
    Ok(e.into())
}

pub fn feed(_vm: &mut Executor, _globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let mut e = Enumerator::expect_initialized(lfp.self_val())?;
    e.set_feed(lfp.arg(0))?;
    Ok(Value::nil())
}pub(crate) fn enum_yielder(
    vm: &mut Executor,
    globals: &mut Globals,
    lfp: Lfp,
    _: BytecodePtr,
) -> Result<Value> {
    let e = Enumerator::new(lfp.self_val());
    let receiver = e.obj;
    let method = e.method;
    let args = &*e.args;
    let kw_args = e.kw_args;
    vm.invoke_method_inner(
        globals,
        method,
        receiver,
        args,
        Some(BlockHandler::from_current(YIELDER_FUNCID)),
        kw_args,
    )
}

pub(crate) fn yielder(
    vm: &mut Executor,
    _globals: &mut Globals,
    lfp: Lfp,
    _: BytecodePtr,
) -> Result<Value> {
    vm.yield_fiber(lfp.arg(0))
}
