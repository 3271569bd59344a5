use crate::*;

pub fn index_assign(
    vm: &mut Executor,
    globals: &mut Globals,
    lfp: Lfp,
    _: BytecodePtr,
) -> Result<Value> {
    let mut key = lfp.arg(0);
    let val = lfp.arg(1);
    // CRuby: when storing into a Hash with a fresh String key, the key
    // is dup'd and frozen so later mutation of the caller's String can't
    // corrupt the hash. Frozen strings are stored as-is; existing-key
    // preservation is handled by the underlying RubyMap. A
    // compare_by_identity hash keys on object identity, so it stores
    // the caller's String as-is (no copy, no freeze).
    if !lfp.self_val().as_hash().is_compare_by_identity() {
        key = key.frozen_hash_key();
    }
    lfp.self_val()
        .as_hash_mut(&globals.store)?
        .insert(key, val, vm, globals)?;
    Ok(val)
}

pub fn index(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let key = lfp.arg(0);
    let self_val = lfp.self_val();
    let h = Hashmap::new(self_val);
    if let Some(v) = h.get(key, vm, globals)? {
        Ok(v)
    } else {
        // CRuby's `Hash#[]` invokes the `default` *method* on a miss
        // (rb_funcall id_default), so Hash subclasses overriding
        // `#default` are honoured. The default `Hash#default` builtin
        // returns the stored value / runs the default proc, so plain
        // hashes behave exactly as before.
        vm.invoke_method_inner(
            globals,
            IdentId::get_id("default"),
            self_val,
            &[key],
            None,
            None,
        )
    }
}

pub fn delete(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let mut h = lfp.self_val().as_hash_mut(&globals.store)?;
    let key = lfp.arg(0);
    let removed_value = h.remove(key, vm, globals)?;
    if removed_value.is_none()
        && let Some(bh) = lfp.block()
    {
        return vm.invoke_block_once(globals, bh, &[key]);
    }

    Ok(removed_value.unwrap_or_default())
}

pub fn shift(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let mut h = lfp.self_val().as_hash_mut(&globals.store)?;
    match h.shift(vm, globals)? {
        Some((k, v)) => Ok(Value::array2(k, v)),
        None => Ok(Value::nil()),
    }
}

pub fn clear(_vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    lfp.self_val().as_hash_mut(&globals.store)?.clear()?;
    Ok(lfp.self_val())
}

pub fn replace(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let mut self_ = lfp.self_val().as_hash_mut(&globals.store)?;
    let arg = lfp.arg(0).coerce_to_hash(vm, globals)?;
    self_.check_iter()?;
    self_.replace_inner(arg.inner().clone_inner());

    Ok(lfp.self_val())
}

pub fn clone(_vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    // Use the real class (skipping singleton/iclass) so that singleton
    // methods on the receiver do NOT show up on the clone.
    let class_id = lfp.self_val().real_class(&globals.store).id();
    let inner = lfp.self_val().as_hashmap_inner().clone_inner();
    let mut v = Value::hash_from_inner(inner);
    if class_id != HASH_CLASS {
        v.change_class(class_id);
    }
    Ok(v)
}

pub fn dup_table(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let mut inner = lfp.self_val().as_hashmap_inner().clone_inner();
    // clone_inner copies the default (`Hash#dup` semantics); drop it.
    inner.as_mut().set_defalut_value(Value::nil(), vm, globals)?;
    Ok(Value::hash_from_inner(inner))
}

pub fn compare_by_identity(
    vm: &mut Executor,
    globals: &mut Globals,
    lfp: Lfp,
    _: BytecodePtr,
) -> Result<Value> {
    lfp.self_val().ensure_not_frozen(&globals.store)?;
    lfp.expect_no_block()?;
    lfp.self_val().as_hash().compare_by_identity(vm, globals)?;
    Ok(lfp.self_val())
}

pub fn compare_by_identity_(
    _vm: &mut Executor,
    _globals: &mut Globals,
    lfp: Lfp,
    _: BytecodePtr,
) -> Result<Value> {
    lfp.expect_no_block()?;
    Ok(Value::bool(
        lfp.self_val().as_hash().is_compare_by_identity(),
    ))
}

pub fn select(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -> Result<Value> {
    let bh = match lfp.block() {
        None => {
            let id = IdentId::get_id("select");
            return hash_to_sized_enum(vm, id, lfp, pc);
        }
        Some(block) => block,
    };
    let data = vm.get_block_data(globals, bh)?;
    let src = lfp.self_val().as_hash();
    let mut inner = HashmapInner::default();
    if src.is_compare_by_identity() {
        inner.compare_by_identity(vm, globals)?;
    }
    vm.with_temp_scope(|vm| {
    for (k, v) in rooted_pairs(vm, src) {
        if vm.invoke_block(globals, &data, &[k, v])?.as_bool() {
            inner.insert(k, v, vm, globals)?;
        }
    }
    Ok(Value::hash_from_inner(inner))
    })
}

pub fn select_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -> Result<Value> {
    let bh = match lfp.block() {
        None => {
            let id = IdentId::get_id("select!");
            return hash_to_sized_enum(vm, id, lfp, pc);
        }
        Some(block) => block,
    };
    lfp.self_val().ensure_not_frozen(&globals.store)?;
    let data = vm.get_block_data(globals, bh)?;
    vm.with_temp_scope(|vm| {
    let remove = collect_removals(vm, globals, lfp.self_val().as_hash(), &data, false)?;
    let changed = !remove.is_empty();
    let mut h = lfp.self_val().as_hash();
    for k in remove {
        h.remove(k, vm, globals)?;
    }
    Ok(if changed {
        lfp.self_val()
    } else {
        Value::nil()
    })
    })
}

pub fn keep_if(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -> Result<Value> {
    let bh = match lfp.block() {
        None => {
            let id = IdentId::get_id("keep_if");
            return hash_to_sized_enum(vm, id, lfp, pc);
        }
        Some(block) => block,
    };
    lfp.self_val().ensure_not_frozen(&globals.store)?;
    let data = vm.get_block_data(globals, bh)?;
    vm.with_temp_scope(|vm| {
    let remove = collect_removals(vm, globals, lfp.self_val().as_hash(), &data, false)?;
    let mut h = lfp.self_val().as_hash();
    for k in remove {
        h.remove(k, vm, globals)?;
    }
    Ok(lfp.self_val())
    })
}

pub fn delete_if(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -> Result<Value> {
    let bh = match lfp.block() {
        None => {
            let id = IdentId::get_id("delete_if");
            return hash_to_sized_enum(vm, id, lfp, pc);
        }
        Some(block) => block,
    };
    lfp.self_val().ensure_not_frozen(&globals.store)?;
    let data = vm.get_block_data(globals, bh)?;
    vm.with_temp_scope(|vm| {
    let remove = collect_removals(vm, globals, lfp.self_val().as_hash(), &data, true)?;
    let mut h = lfp.self_val().as_hash();
    for k in remove {
        h.remove(k, vm, globals)?;
    }
    Ok(lfp.self_val())
    })
}

pub fn reject(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -> Result<Value> {
    let bh = match lfp.block() {
        None => {
            let id = IdentId::get_id("reject");
            return hash_to_sized_enum(vm, id, lfp, pc);
        }
        Some(block) => block,
    };
    // `reject` returns a fresh Hash (NOT the receiver's class, NOT carrying
    // singleton methods, default value, or default_proc).
    let mut inner = HashmapInner::default();
    if lfp.self_val().as_hash().is_compare_by_identity() {
        inner.compare_by_identity(vm, globals)?;
    }
    let p = vm.get_block_data(globals, bh)?;
    vm.with_temp_scope(|vm| {
    for (k, v) in rooted_pairs(vm, lfp.self_val().as_hash()) {
        if !vm.invoke_block(globals, &p, &[k, v])?.as_bool() {
            inner.insert(k, v, vm, globals)?;
        }
    }
    Ok(Value::hash_from_inner(inner))
    })
}

pub fn reject_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -> Result<Value> {
    let bh = match lfp.block() {
        None => {
            let id = IdentId::get_id("reject!");
            return hash_to_sized_enum(vm, id, lfp, pc);
        }
        Some(block) => block,
    };
    lfp.self_val().ensure_not_frozen(&globals.store)?;
    let data = vm.get_block_data(globals, bh)?;
    vm.with_temp_scope(|vm| {
    let remove = collect_removals(vm, globals, lfp.self_val().as_hash(), &data, true)?;
    let changed = !remove.is_empty();
    let mut h = lfp.self_val().as_hash();
    for k in remove {
        h.remove(k, vm, globals)?;
    }
    Ok(if changed {
        lfp.self_val()
    } else {
        Value::nil()
    })
    })
}

pub fn merge(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let mut h = lfp.self_val().dup().as_hash();
    // The dup is a fresh Hash referenced only by this Rust local; root it
    // across `#to_hash`, the block calls, and the Ruby `hash`/`eql?`
    // dispatches inside get/insert (contrast `merge!`, where `h` is the
    // frame-rooted receiver).
    vm.with_temp_scope(|vm| {
    vm.temp_push(h.into());
    if let Some(block) = lfp.block() {
        let data = vm.get_block_data(globals, block)?;
        for arg in lfp.arg(0).as_array().iter() {
            let other_val = arg.coerce_to_hash(vm, globals)?;
            for (k, other_v) in rooted_pairs(vm, other_val) {
                if let Some(self_v) = h.get(k, vm, globals)? {
                    let v = vm.invoke_block(globals, &data, &[k, self_v, other_v])?;
                    h.insert(k, v, vm, globals)?;
                } else {
                    h.insert(k, other_v, vm, globals)?;
                }
            }
        }
    } else {
        for arg in lfp.arg(0).as_array().iter() {
            let other_val = arg.coerce_to_hash(vm, globals)?;
            for (k, v) in rooted_pairs(vm, other_val) {
                h.insert(k, v, vm, globals)?;
            }
        }
    }

    Ok(h.into())
    })
}

pub fn merge_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let mut h = lfp.self_val().as_hash_mut(&globals.store)?;
    vm.with_temp_scope(|vm| {
    if let Some(block) = lfp.block() {
        let data = vm.get_block_data(globals, block)?;
        for arg in lfp.arg(0).as_array().iter() {
            let other_val = arg.coerce_to_hash(vm, globals)?;
            let other = other_val;
            for (k, other_v) in rooted_pairs(vm, other) {
                if let Some(self_v) = h.get(k, vm, globals)? {
                    let v = vm.invoke_block(globals, &data, &[k, self_v, other_v])?;
                    h.insert(k, v, vm, globals)?;
                } else {
                    h.insert(k, other_v, vm, globals)?;
                }
            }
        }
    } else {
        for arg in lfp.arg(0).as_array().iter() {
            let other_val = arg.coerce_to_hash(vm, globals)?;
            let other = other_val;
            for (k, v) in rooted_pairs(vm, other) {
                h.insert(k, v, vm, globals)?;
            }
        }
    }
    Ok(lfp.self_val())
    })
}

pub fn key(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let hash = lfp.self_val().as_hash();
    let target = lfp.arg(0);
    vm.with_temp_scope(|vm| {
    for (k, v) in rooted_pairs(vm, hash) {
        if vm.eq_values_bool(globals, v, target)? {
            return Ok(k);
        }
    }
    Ok(Value::nil())
    })
}

pub fn assoc(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let key = lfp.arg(0);
    let hash = lfp.self_val().as_hash();
    vm.with_temp_scope(|vm| {
    for (k, v) in rooted_pairs(vm, hash) {
        if vm.eq_values_bool(globals, key, k)? {
            return Ok(Value::array_from_vec(vec![k, v]));
        }
    }
    Ok(Value::nil())
    })
}

pub fn rassoc(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let value = lfp.arg(0);
    let hash = lfp.self_val().as_hash();
    vm.with_temp_scope(|vm| {
    for (k, v) in rooted_pairs(vm, hash) {
        if vm.eq_values_bool(globals, value, v)? {
            return Ok(Value::array_from_vec(vec![k, v]));
        }
    }
    Ok(Value::nil())
    })
}

pub fn invert(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    lfp.expect_no_block()?;
    let hash = lfp.self_val().as_hash();
    let mut map = RubyMap::default();
    vm.with_temp_scope(|vm| {
    for (k, v) in rooted_pairs(vm, hash) {
        map.insert(v, k, vm, globals)?;
    }
    Ok(Value::hash(map))
    })
}

pub fn values_at(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let hash = lfp.self_val().as_hash();
    let keys = lfp.arg(0).as_array();
    let mut res = vec![];
    vm.with_temp_scope(|vm| {
    for k in keys.iter() {
        let v = hash.index(vm, globals, *k)?;
        // The value may come from a default proc: nothing else holds it.
        vm.temp_push(v);
        res.push(v);
    }
    Ok(Value::array_from_vec(res))
    })
}

pub fn fetch(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let hash = lfp.self_val().as_hash();
    let arg0 = lfp.arg(0);
    let s = if let Some(bh) = lfp.block() {
        if lfp.try_arg(1).is_some() {
            let warn_id = IdentId::get_id("warn");
            let msg = Value::string_from_str("warning: block supersedes default value argument");
            vm.invoke_method_inner(globals, warn_id, lfp.self_val(), &[msg], None, None)?;
        }
        match hash.get(arg0, vm, globals)? {
            Some(v) => v,
            None => vm.invoke_block_once(globals, bh, &[arg0])?,
        }
    } else if let Some(arg1) = lfp.try_arg(1) {
        match hash.get(arg0, vm, globals)? {
            Some(v) => v,
            None => arg1,
        }
    } else {
        match hash.get(arg0, vm, globals)? {
            Some(v) => v,
            None => {
                return Err(MonorubyErr::keyerr_with(
                    format!("key not found: {}", arg0.inspect(&globals.store)),
                    lfp.self_val(),
                    arg0,
                ));
            }
        }
    };
    Ok(s)
}

pub fn eq(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let self_val = lfp.self_val();
    let rhs_v = lfp.arg(0);
    let lhs = self_val.as_hash();
    let rhs = if let Some(rhs) = rhs_v.try_hash_ty() {
        rhs
    } else {
        return Ok(Value::bool(false));
    };
    if lhs.len() != rhs.len() {
        return Ok(Value::bool(false));
    }
    // Two *non-empty* hashes that differ only in `compare_by_identity` are
    // not equal (their key-equality semantics differ). Two empty hashes
    // are equal regardless of the flag, matching CRuby.
    if lhs.len() != 0 && lhs.is_compare_by_identity() != rhs.is_compare_by_identity() {
        return Ok(Value::bool(false));
    }
    crate::value::exec_recursive_paired(self_val.id(), rhs_v.id(), || {
        vm.with_temp_scope(|vm| {
        for (k, lhs_value) in rooted_pairs(vm, lhs) {
            if let Some(rhs_value) = rhs.get(k, vm, globals)?
                && vm.eq_values_bool(globals, lhs_value, rhs_value)?
            {
                continue;
            } else {
                return Ok(Value::bool(false));
            }
        }
        Ok(Value::bool(true))
        })
    }, Value::bool(true))
}

pub fn eql(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let self_val = lfp.self_val();
    let rhs_v = lfp.arg(0);
    let lhs = self_val.as_hash();
    let rhs = if let Some(rhs) = rhs_v.try_hash_ty() {
        rhs
    } else {
        return Ok(Value::bool(false));
    };
    if lhs.len() != rhs.len() {
        return Ok(Value::bool(false));
    }
    // Two *non-empty* hashes that differ only in `compare_by_identity` are
    // not equal (their key-equality semantics differ). Two empty hashes
    // are equal regardless of the flag, matching CRuby.
    if lhs.len() != 0 && lhs.is_compare_by_identity() != rhs.is_compare_by_identity() {
        return Ok(Value::bool(false));
    }
    let eql_id = IdentId::EQL_;
    crate::value::exec_recursive_paired(self_val.id(), rhs_v.id(), || {
        vm.with_temp_scope(|vm| {
        for (k, lhs_value) in rooted_pairs(vm, lhs) {
            let Some(rhs_value) = rhs.get(k, vm, globals)? else {
                return Ok(Value::bool(false));
            };
            let result = vm.invoke_method_inner(
                globals,
                eql_id,
                lhs_value,
                &[rhs_value],
                None,
                None,
            )?;
            if !result.as_bool() {
                return Ok(Value::bool(false));
            }
        }
        Ok(Value::bool(true))
        })
    }, Value::bool(true))
}

pub fn hash(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let self_val = lfp.self_val();
    let recursive_marker = Value::integer(0);
    // Outer-recursion collapse (CRuby rb_exec_recursive_outer): a cycle
    // detected at any depth collapses the *outermost* #hash to the
    // sentinel, so `h.hash == {x: h}.hash` when h[:x] = h (h.eql?(x: h)).
    crate::value::exec_recursive_outer(
        self_val.id(),
        || {
            let h = self_val.as_hash();
            // Use a non-commutative pair mix so that swapping values between
            // keys yields different hashes (otherwise `{a:2,b:7}` and
            // `{a:7,b:2}` would collide). Per-pair hashes are summed (rather
            // than XOR'd) so identical values across pairs don't cancel.
            // Size is folded in to distinguish hashes of different cardinality.
            const KEY_MIX: i64 = 0x100000001b3u64 as i64;
            const VAL_MIX: i64 = 0xc6bc279692b5c323u64 as i64;
            const KEY_OFFSET: i64 = 0x9e3779b97f4a7c15u64 as i64;
            let mut acc: i64 = (h.len() as i64).wrapping_mul(0x9ddfea08eb382d69u64 as i64);
            let hash_id = IdentId::HASH;
            vm.with_temp_scope(|vm| {
            for (k, v) in rooted_pairs(vm, h) {
                let kh = vm
                    .invoke_method_inner(globals, hash_id, k, &[], None, None)?
                    .try_fixnum()
                    .unwrap_or(0);
                let vh = vm
                    .invoke_method_inner(globals, hash_id, v, &[], None, None)?
                    .try_fixnum()
                    .unwrap_or(0);
                let kpart = kh.wrapping_add(KEY_OFFSET).wrapping_mul(KEY_MIX);
                let vpart = vh.wrapping_mul(VAL_MIX).rotate_left(13);
                acc = acc.wrapping_add(kpart ^ vpart);
            }
            // Fold into Fixnum range: a Bignum digest would degrade to 0
            // when this hash is itself an element of an outer Hash.
            Ok(Value::from_hash_digest(acc as u64))
            })
        },
        recursive_marker,
    )
}

pub fn lt(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let lhs = lfp.self_val().as_hash();
    let rhs_val = lfp.arg(0).coerce_to_hash(vm, globals)?;
    let rhs = rhs_val;
    let result = lhs.len() < rhs.len() && hash_subset(lhs, rhs, vm, globals)?;
    Ok(Value::bool(result))
}

pub fn le(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let lhs = lfp.self_val().as_hash();
    let rhs_val = lfp.arg(0).coerce_to_hash(vm, globals)?;
    let rhs = rhs_val;
    let result = lhs.len() <= rhs.len() && hash_subset(lhs, rhs, vm, globals)?;
    Ok(Value::bool(result))
}

pub fn gt(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let lhs = lfp.self_val().as_hash();
    let rhs_val = lfp.arg(0).coerce_to_hash(vm, globals)?;
    let rhs = rhs_val;
    let result = lhs.len() > rhs.len() && hash_subset(rhs, lhs, vm, globals)?;
    Ok(Value::bool(result))
}

pub fn ge(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let lhs = lfp.self_val().as_hash();
    let rhs_val = lfp.arg(0).coerce_to_hash(vm, globals)?;
    let rhs = rhs_val;
    let result = lhs.len() >= rhs.len() && hash_subset(rhs, lhs, vm, globals)?;
    Ok(Value::bool(result))
}

pub fn include(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let b = lfp
        .self_val()
        .as_hash()
        .contains_key(lfp.arg(0), vm, globals)?;
    Ok(Value::bool(b))
}

pub fn size(_vm: &mut Executor, _globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let len = lfp.self_val().as_hash().len();
    Ok(Value::integer(len as i64))
}

pub fn empty_(_: &mut Executor, _: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    lfp.expect_no_block()?;
    let self_ = lfp.self_val();
    let b = self_.as_hashmap_inner().is_empty();
    Ok(Value::bool(b))
}

pub fn keys(_vm: &mut Executor, _globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let keys = lfp.self_val().as_hash().keys();
    Ok(Value::array_from_vec(keys))
}

pub fn values(_vm: &mut Executor, _globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let keys = lfp.self_val().as_hash().values();
    Ok(Value::array_from_vec(keys))
}

pub fn pairs(_vm: &mut Executor, _globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let hash = lfp.self_val().as_hash();
    Ok(Value::array_from_iter(
        hash.iter().map(|(k, v)| Value::array2(k, v)),
    ))
}

pub fn default(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let hash = lfp.self_val().as_hash();
    match lfp.try_arg(0) {
        Some(key) => {
            if let Some(default_proc) = hash.defalut_proc() {
                vm.invoke_proc(globals, &default_proc, &[lfp.self_val(), key])
            } else {
                Ok(hash.defalut_value().unwrap_or_default())
            }
        }
        None => {
            let default = hash.defalut_value().unwrap_or_default();
            Ok(default)
        }
    }
}

pub fn default_assign(
    vm: &mut Executor,
    globals: &mut Globals,
    lfp: Lfp,
    _: BytecodePtr,
) -> Result<Value> {
    lfp.self_val().ensure_not_frozen(&globals.store)?;
    let default = lfp.arg(0);
    lfp.self_val()
        .as_hash()
        .set_defalut_value(default, vm, globals)?;
    Ok(default)
}

pub fn default_proc(_: &mut Executor, _: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let hash = lfp.self_val().as_hash();
    Ok(hash.defalut_proc().map(Proc::as_val).unwrap_or_default())
}

pub fn set_value_at(_vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let idx = lfp.arg(0).coerce_to_i64(globals)?;
    let v = lfp.arg(1);
    if idx >= 0 {
        lfp.self_val().as_hash().set_value_at(idx as usize, v);
    }
    Ok(v)
}

pub fn iter_begin(_vm: &mut Executor, _globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    Ok(Value::bool(lfp.self_val().as_hash().iter_incr()))
}

pub fn iter_end(_vm: &mut Executor, _globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    lfp.self_val().as_hash().iter_decr(lfp.arg(0).as_bool());
    Ok(Value::nil())
}

pub fn key_at(_vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let idx = lfp.arg(0).coerce_to_i64(globals)?;
    Ok(entry_component(lfp.self_val(), idx, true))
}

pub fn value_at(_vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let idx = lfp.arg(0).coerce_to_i64(globals)?;
    Ok(entry_component(lfp.self_val(), idx, false))
}

pub fn entry_count(_vm: &mut Executor, _globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let n = lfp.self_val().as_hash().entry_count();
    Ok(Value::integer(n as i64))
}

pub fn live_at(_vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let idx = lfp.arg(0).coerce_to_i64(globals)?;
    let live = idx >= 0 && lfp.self_val().as_hash().live_at(idx as usize);
    Ok(Value::bool(live))
}

pub fn to_h(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    if let Some(bh) = lfp.block() {
        let data = vm.get_block_data(globals, bh)?;
        let hash = lfp.self_val().as_hash();
        let pairs: Vec<(Value, Value)> = hash.iter().collect();
        // Accumulate into a rooted Ruby Hash (not a bare Rust RubyMap):
        // the entries come from the block's fresh return Arrays and must
        // survive the following block calls.
        vm.with_temp_scope(|vm| {
            vm.temp_push(Value::hash(RubyMap::default()));
            let map_idx = vm.temp_len() - 1;
            for (k, v) in pairs {
                let result = vm.invoke_block(globals, &data, &[k, v])?;
                let arr = result.expect_array_ty(globals)?;
                if arr.len() != 2 {
                    return Err(MonorubyErr::typeerr(
                        "wrong element type (expected array with 2 elements)",
                    ));
                }
                vm.temp_at(map_idx).as_hash().insert(arr[0], arr[1], vm, globals)?;
            }
            Ok(vm.temp_at(map_idx))
        })
    } else {
        Ok(lfp.self_val())
    }
}

pub fn get_or_key(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let k = lfp.arg(0);
    Ok(lfp.self_val().as_hash().get(k, vm, globals)?.unwrap_or(k))
}

pub fn each(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -> Result<Value> {
    let bh = match lfp.block() {
        None => {
            let id = IdentId::EACH;
            return hash_to_sized_enum(vm, id, lfp, pc);
        }
        Some(block) => block,
    };
    let hash = lfp.self_val().as_hash();
    let data = vm.get_block_data(globals, bh)?;
    let _iter_guard = hash.iter_guard();
    // Snapshot the stored (key, value) pairs before yielding so the traversal
    // tolerates deletion during iteration (CRuby allows `h.each { h.delete(k) }`
    // / `h.shift`). Yielding the snapshotted pairs directly — rather than
    // re-looking-up each key — is essential: a key's `#hash` may legitimately
    // differ from its stored slot (e.g. `Hash#rehash`, mutable keys), and a
    // re-lookup would then miss it. Adding a *new* key still raises via the
    // iteration guard on `insert`.
    let pairs: Vec<(Value, Value)> = hash.iter().collect();
    for (k, v) in pairs {
        vm.invoke_block(globals, &data, &[Value::array2(k, v)])?;
    }
    Ok(lfp.self_val())
}

pub fn hash_to_sized_enum(
    vm: &mut Executor,
    method: IdentId,
    lfp: Lfp,
    pc: BytecodePtr,
) -> Result<Value> {
    let size = Value::integer(lfp.self_val().as_hash().len() as i64);
    vm.generate_enumerator_with_size(method, lfp.self_val(), lfp.iter().collect(), pc, Some(size))
}

pub fn rooted_pairs(vm: &mut Executor, hash: Hashmap) -> Vec<(Value, Value)> {
    let pairs: Vec<(Value, Value)> = hash.iter().collect();
    for (k, v) in &pairs {
        vm.temp_push(*k);
        vm.temp_push(*v);
    }
    pairs
}

pub fn collect_removals(
    vm: &mut Executor,
    globals: &mut Globals,
    hash: Hashmap,
    data: &ProcData,
    wanted: bool,
) -> Result<Vec<Value>> {
    let _iter_guard = hash.iter_guard();
    let mut remove = vec![];
    let mut i = 0;
    while i < hash.entry_count() {
        if let Some((k, v)) = hash.entry_at(i)
            && vm.invoke_block(globals, data, &[k, v])?.as_bool() == wanted
        {
            vm.temp_push(k);
            remove.push(k);
        }
        i += 1;
    }
    Ok(remove)
}

pub fn hash_subset(
    sub: Hashmap,
    sup: Hashmap,
    vm: &mut Executor,
    globals: &mut Globals,
) -> Result<bool> {
    vm.with_temp_scope(|vm| {
    for (k, sub_value) in rooted_pairs(vm, sub) {
        if let Some(sup_value) = sup.get(k, vm, globals)?
            && vm.eq_values_bool(globals, sub_value, sup_value)?
        {
            continue;
        } else {
            return Ok(false);
        }
    }
    Ok(true)
    })
}

pub fn entry_component(recv: Value, idx: i64, want_key: bool) -> Value {
    if idx < 0 {
        return Value::nil();
    }
    match recv.as_hash().entry_at(idx as usize) {
        Some((k, v)) => {
            if want_key {
                k
            } else {
                v
            }
        }
        None => Value::nil(),
    }
}

