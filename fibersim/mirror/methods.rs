use super::*;
use crate::*;
const STORAGE_IVAR: &str = "/fiber_storage";

pub fn current(vm: &mut Executor, globals: &mut Globals, _: Lfp, _: BytecodePtr) -> Result<Value> {
    current_fiber_obj(vm, globals)
}

pub fn fiber_new(
    vm: &mut Executor,
    globals: &mut Globals,
    lfp: Lfp,
    pc: BytecodePtr,
) -> Result<Value> {
    let Some(bh) = lfp.block() else {
        return Err(MonorubyErr::argumenterr(
            "tried to create a Fiber without a block",
        ));
    };
    // Keywords (`blocking:`, `storage:`) arrive as a trailing hash.
    let mut blocking = false;
    let mut storage_kw: Option<Value> = None;
    if let Some(arg) = lfp.try_arg(0)
        && let Some(h) = arg.try_hash_ty()
    {
        if let Some(v) = h.get(Value::symbol(IdentId::get_id("blocking")), vm, globals)? {
            blocking = v.as_bool();
        }
        if let Some(v) = h.get(Value::symbol(IdentId::get_id("storage")), vm, globals)? {
            storage_kw = Some(v);
        }
    }
    let storage = match storage_kw {
        // `storage: nil` — start empty, lazily materialized; no inheritance.
        Some(v) if v.is_nil() => None,
        Some(v) if v != Value::bool(true) => {
            validate_storage(globals, v)?;
            Some(v.dup())
        }
        // Default, and `storage: true`: inherit a copy of the creating
        // fiber's storage.
        _ => current_fiber_storage(vm, globals)?,
    };
    let proc = vm.generate_proc(globals, bh, pc)?;
    let owner = crate::scheduler::current_thread(vm).id();
    let thread_root = Some(vm.thread_root_or_self());
    let mut inner = FiberInner::new(proc, owner, thread_root);
    inner.executor_mut().set_fiber_blocking(blocking);
    let class_id = lfp.self_val().as_class_id();
    let obj = Value::new_fiber_with_class(inner, class_id);
    if let Some(st) = storage {
        globals.store.set_ivar(obj, storage_ivar_id(), st)?;
    }
    Ok(obj)
}

pub fn fiber_yield(
    vm: &mut Executor,
    _globals: &mut Globals,
    lfp: Lfp,
    _: BytecodePtr,
) -> Result<Value> {
    if vm.parent_fiber().is_none() {
        return Err(MonorubyErr::fibererr(
            "attempt to yield on a not resumed fiber".to_string(),
        ));
    }
    let len = lfp.arg(0).as_array().len();
    let val = if len == 0 {
        Value::nil()
    } else if len == 1 {
        lfp.arg(0).as_array()[0]
    } else {
        lfp.arg(0)
    };
    vm.yield_fiber(val)
}

pub fn resume(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let mut self_val = Fiber::new(lfp.self_val());
    check_same_thread(vm, &self_val)?;
    self_val.resume(vm, globals, lfp)
}

pub fn transfer(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let mut self_val = Fiber::new(lfp.self_val());
    check_same_thread(vm, &self_val)?;
    let binding = lfp.arg(0);
    let args = binding.as_array();
    self_val.transfer(vm, globals, &args)
}

pub fn alive_p(_: &mut Executor, _: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let fiber = Fiber::new(lfp.self_val());
    // A thread's root fiber lives as long as the thread does — and a root
    // Fiber object is only obtainable from code running on that thread, so
    // it reads as alive.
    let alive = fiber.is_root() || !fiber.is_terminated();
    Ok(Value::bool(alive))
}

pub fn kill(vm: &mut Executor, _globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let mut fiber = Fiber::new(lfp.self_val());
    check_same_thread(vm, &fiber)?;
    if fiber.is_root() {
        return Err(MonorubyErr::fibererr(
            "attempt to kill the fiber of the main thread".to_string(),
        ));
    }
    if fiber.is_terminated() {
        return Err(MonorubyErr::fibererr(
            "attempt to resume a terminated fiber".to_string(),
        ));
    }
    if fiber.executor_ptr() == (vm as *mut Executor) {
        // Kill myself: unwind in place; the pending resume/transfer on the
        // other side swallows the kill when this fiber's body terminates.
        vm.set_killed();
        return Err(MonorubyErr::new(MonorubyErrKind::FiberKill, "killed"));
    }
    if fiber.executor().resuming_fiber().is_some() {
        // An active ancestor on the resume chain (CRuby): the kill unwinds
        // the *current* fiber immediately; the FiberKill propagates through
        // each intermediate fiber's pending `resume` up to the target,
        // whose own receiver — seeing the target's `killed` flag — swallows
        // it. Code after this call in the current fiber does not run.
        fiber.executor_mut().set_killed();
        return Err(MonorubyErr::new(MonorubyErrKind::FiberKill, "killed"));
    }
    if fiber.state() == FiberState::Created {
        // Never started: dead immediately, no body, no ensure.
        fiber.executor_mut().set_terminated();
        return Ok(Value::nil());
    }
    let resume_style = fiber.executor().is_yielding();
    fiber.executor_mut().set_killed();
    let err = MonorubyErr::new(MonorubyErrKind::FiberKill, "killed");
    fiber.inject_error(vm, err, resume_style)?;
    Ok(Value::nil())
}

pub fn fiber_raise(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    // Same keyword layout as Kernel#raise / Thread#raise: `cause:` at slot
    // 3, leftover keywords (kw_rest, slot 4) act as a trailing positional
    // Hash.
    let cause_kwarg = lfp.try_arg(3);
    let kw_rest = lfp
        .try_arg(4)
        .filter(|v| v.try_hash_ty().is_some_and(|h| h.len() != 0));
    let mut args = vec![];
    if let Some(a0) = lfp.try_arg(0) {
        args.push(a0);
        if let Some(a1) = lfp.try_arg(1) {
            args.push(a1);
            if let Some(a2) = lfp.try_arg(2) {
                args.push(a2);
            }
        }
    }
    if let Some(kw) = kw_rest {
        args.push(kw);
    }
    let mut fiber = Fiber::new(lfp.self_val());
    check_same_thread(vm, &fiber)?;
    let mut err = super::thread::build_async_error(vm, globals, &args, cause_kwarg)?;
    // The cause comes from the *calling* context: pin the caller's `$!`
    // (or its absence) so delivery in the target never picks up the
    // target's own `$!`.
    if cause_kwarg.is_none() && err.explicit_cause.is_none() {
        let errinfo = vm.errinfo();
        let cause = if errinfo.is_exception().is_some()
            && err.original.map(|o| o.id()) != Some(errinfo.id())
        {
            errinfo
        } else {
            Value::nil()
        };
        err.explicit_cause = Some(cause);
    }
    if fiber.executor_ptr() == (vm as *mut Executor) {
        // Raising on the current fiber is Kernel#raise.
        return Err(err);
    }
    match fiber.state() {
        FiberState::Created => Err(MonorubyErr::fibererr(
            "cannot raise exception on unborn fiber".to_string(),
        )),
        FiberState::Terminated => Err(MonorubyErr::fibererr(
            "attempt to resume a terminated fiber".to_string(),
        )),
        FiberState::Suspended => {
            if fiber.executor().resuming_fiber().is_some() {
                // An active ancestor waiting inside `resume`: equivalent to
                // Kernel#raise here — the unwind naturally reaches it
                // through the resume chain.
                return Err(err);
            }
            let resume_style = fiber.executor().is_yielding();
            fiber.inject_error(vm, err, resume_style)
        }
    }
}

pub fn blocking_p(_: &mut Executor, _: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let fiber = Fiber::new(lfp.self_val());
    Ok(Value::bool(fiber.executor().is_fiber_blocking()))
}

pub fn class_blocking_p(vm: &mut Executor, _: &mut Globals, _: Lfp, _: BytecodePtr) -> Result<Value> {
    Ok(if vm.is_fiber_blocking() {
        Value::integer(1)
    } else {
        Value::bool(false)
    })
}

pub fn class_blocking(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let bh = lfp.expect_block()?;
    let cur = current_fiber_obj(vm, globals)?;
    let old = vm.is_fiber_blocking();
    vm.set_fiber_blocking(true);
    let res = vm.invoke_block_once(globals, bh, &[cur]);
    vm.set_fiber_blocking(old);
    res
}

pub fn class_storage_get(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let key = storage_key(vm, globals, lfp.arg(0))?;
    let cur = current_fiber_obj(vm, globals)?;
    let Some(storage) = globals
        .store
        .get_ivar(cur, storage_ivar_id())
        .filter(|v| !v.is_nil())
    else {
        return Ok(Value::nil());
    };
    let h = storage.try_hash_ty().unwrap();
    Ok(h.get(key, vm, globals)?.unwrap_or_default())
}

pub fn class_storage_set(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let key = storage_key(vm, globals, lfp.arg(0))?;
    let val = lfp.arg(1);
    let cur = current_fiber_obj(vm, globals)?;
    let storage = match globals
        .store
        .get_ivar(cur, storage_ivar_id())
        .filter(|v| !v.is_nil())
    {
        Some(s) => s,
        None => {
            let s = Value::hash(RubyMap::default());
            globals.store.set_ivar(cur, storage_ivar_id(), s)?;
            s
        }
    };
    let mut h = storage.try_hash_ty().unwrap();
    if val.is_nil() {
        h.remove(key, vm, globals)?;
    } else {
        h.insert(key, val, vm, globals)?;
    }
    Ok(val)
}

pub fn storage_get(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    check_storage_owner(vm, globals, lfp.self_val())?;
    // A copy: changing the returned Hash must not change the storage.
    Ok(globals
        .store
        .get_ivar(lfp.self_val(), storage_ivar_id())
        .map(|v| v.dup())
        .unwrap_or_default())
}

pub fn storage_set(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    check_storage_owner(vm, globals, lfp.self_val())?;
    let hash = lfp.arg(0);
    if hash.is_nil() {
        globals
            .store
            .set_ivar(lfp.self_val(), storage_ivar_id(), Value::nil())?;
        return Ok(Value::nil());
    }
    validate_storage(globals, hash)?;
    globals
        .store
        .set_ivar(lfp.self_val(), storage_ivar_id(), hash.dup())?;
    Ok(hash)
}

pub(crate) fn current_fiber_obj(vm: &mut Executor, globals: &mut Globals) -> Result<Value> {
    if let Some(f) = vm.current_fiber() {
        return Ok(f);
    }
    if let Some(obj) = vm.root_fiber_obj() {
        // The cached object may have captured a pre-move executor address
        // (the embedder's executor is returned by value from
        // `Executor::init`); re-anchor it to the live one.
        let ptr = std::ptr::NonNull::new(vm as *mut Executor).unwrap();
        Fiber::new(obj).reanchor_root(ptr);
        return Ok(obj);
    }
    let owner = crate::scheduler::current_thread(vm).id();
    let ptr = std::ptr::NonNull::new(vm as *mut Executor).unwrap();
    let inner = FiberInner::root(ptr, owner);
    let obj = Value::new_fiber(inner);
    if let Some(storage) = vm.inherited_storage() {
        globals.store.set_ivar(obj, storage_ivar_id(), storage)?;
    }
    vm.set_root_fiber_obj(obj);
    // A GC triggered while an ordinary fiber runs marks only the running
    // executor; keep the root Fiber reachable through Globals regardless of
    // which executor triggers the collection.
    globals.root_fiber_objs.push(obj);
    Ok(obj)
}

pub fn storage_ivar_id() -> IdentId {
    IdentId::get_id(STORAGE_IVAR)
}

pub(crate) fn current_fiber_storage(
    vm: &mut Executor,
    globals: &mut Globals,
) -> Result<Option<Value>> {
    // Read without materializing a root Fiber object: at an untouched root
    // context the storage (if any) is still the thread-creation snapshot.
    let cur = if let Some(f) = vm.current_fiber() {
        f
    } else if let Some(obj) = vm.root_fiber_obj() {
        obj
    } else {
        return Ok(vm.inherited_storage().map(|v| v.dup()));
    };
    Ok(globals
        .store
        .get_ivar(cur, storage_ivar_id())
        .filter(|v| !v.is_nil())
        .map(|v| v.dup()))
}

pub fn validate_storage(globals: &Globals, hash: Value) -> Result<()> {
    let Some(h) = hash.try_hash_ty() else {
        return Err(MonorubyErr::typeerr(format!(
            "no implicit conversion of {} into Hash",
            hash.get_real_class_name(&globals.store)
        )));
    };
    if hash.is_frozen() {
        return Err(MonorubyErr::frozenerr("can't modify frozen Hash"));
    }
    for k in h.keys() {
        if k.try_symbol().is_none() {
            return Err(MonorubyErr::typeerr(format!(
                "wrong argument type {} (expected Symbol)",
                k.get_real_class_name(&globals.store)
            )));
        }
    }
    Ok(())
}

pub fn check_same_thread(vm: &mut Executor, fiber: &FiberInner) -> Result<()> {
    let owner = fiber.owner_thread();
    if owner != 0 && owner != crate::scheduler::current_thread(vm).id() {
        return Err(MonorubyErr::fibererr(
            "fiber called across threads".to_string(),
        ));
    }
    Ok(())
}

pub fn storage_key(vm: &mut Executor, globals: &mut Globals, key: Value) -> Result<Value> {
    if key.try_symbol().is_some() {
        return Ok(key);
    }
    if key.is_str().is_some() || globals.check_method(key, IdentId::TO_STR).is_some() {
        let id = key.coerce_to_symbol_or_string(vm, globals)?;
        return Ok(Value::symbol(id));
    }
    Err(MonorubyErr::typeerr(format!(
        "wrong argument type {} (expected Symbol)",
        key.get_real_class_name(&globals.store)
    )))
}

pub fn check_storage_owner(vm: &mut Executor, globals: &mut Globals, fiber: Value) -> Result<()> {
    let cur = current_fiber_obj(vm, globals)?;
    if cur.id() != fiber.id() {
        return Err(MonorubyErr::argumenterr(
            "Fiber storage can only be accessed from the Fiber it belongs to",
        ));
    }
    Ok(())
}
