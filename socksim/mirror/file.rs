pub(super) fn block_close(
    vm: &mut Executor,
    globals: &mut Globals,
    io: Value,
    block_result: Result<Value>,
) -> Result<Value> {
    let close_result =
        vm.invoke_method_inner(globals, IdentId::get_id("close"), io, &[], None, None);
    match (block_result, close_result) {
        (Err(e), _) => Err(e),
        (Ok(v), Ok(_)) => Ok(v),
        (Ok(v), Err(ce)) => {
            if ce.message().contains("closed stream") {
                Ok(v)
            } else {
                Err(ce)
            }
        }
    }
}
