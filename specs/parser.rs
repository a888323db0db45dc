// C10, C11, C17, C18: the LLVM-IR parser reads what the text says
//@@spec ir_parse
    ensures
        ret is Ok ==> g_module(ll@, (ret->Ok_0)@), //#C10 C11 C17 C18 what is read is all of the text, in order, item for item
//@@spec ir_items
    ensures
        ret is Ok ==> g_module(i@, (ret->Ok_0).1@), //#C10 C11 C17 C18 nothing of the text is left out
//@@spec ir_comment
    ensures
        ret is Ok ==> g_remark(i@, (ret->Ok_0).0@), //#C10 C11 C17 C18 a comment is the rest of a line
//@@spec ir_ident_p0
    ensures ret == id_char(c), //#C11 C20 the characters of a name
//@@spec ir_ident
    ensures
        ret is Ok ==> g_ident(i@, (ret->Ok_0).0@, (ret->Ok_0).1.0@), //#C11 C20 an identifier is a name to its last character
//@@spec ir_global
    ensures
        ret is Ok ==> g_global(i@, (ret->Ok_0).0@, ov((ret->Ok_0).1.0)), //#C11 the name of a global
//@@spec ir_local
    ensures
        ret is Ok ==> g_local(i@, (ret->Ok_0).0@), //#C11 a local
//@@spec ir_null
    ensures
        ret is Ok ==> g_lit(i@, (ret->Ok_0).0@, "null"@), //#C10 the null constant
//@@spec ir_undef
    ensures
        ret is Ok ==> g_lit(i@, (ret->Ok_0).0@, "undef"@), //#C10 the undef constant
//@@spec ir_attribute_p0
    ensures ret == word_char(c), //#C10 C11 the characters of an attribute
//@@spec ir_attribute
    ensures
        ret is Ok ==> g_attr(i@, (ret->Ok_0).0@), //#C10 C11 an attribute is no type, operation or item keyword
//@@spec ir_bitcast
    ensures
        ret is Ok ==> g_bitcast(i@, (ret->Ok_0).0@, ov((ret->Ok_0).1.0)), //#C11 a bitcast names the global that is cast
//@@spec ir_getelementptr
    ensures
        ret is Ok ==> g_gep(i@, (ret->Ok_0).0@, ov((ret->Ok_0).1.0)), //#C11 so does an address computation
//@@spec ir_name
    ensures
        ret is Ok ==> g_name(i@, (ret->Ok_0).0@, (ret->Ok_0).1@), //#C11 C20 a name, without its quotes
//@@spec ir_function
    ensures
        ret is Ok ==> g_function(i@, (ret->Ok_0).0@, (ret->Ok_0).1.0@), //#C11 C20 a function by its whole name
//@@spec ir_alias
    ensures
        ret is Ok ==> g_alias(i@, (ret->Ok_0).0@, (ret->Ok_0).1.0@), //#C10 a type by its whole name
//@@spec ir_string
    ensures
        ret is Ok ==> g_string(i@, (ret->Ok_0).0@, (ret->Ok_0).1.0@), //#C11 C20 a string, to its closing quote
//@@spec ty_array
    ensures
        ret is Ok ==> g_type(i@, (ret->Ok_0).0@, (ret->Ok_0).1.t()), //#C10 a type is read as it is written
//@@spec ty_mvt_vector
    ensures
        ret is Ok ==> g_type(i@, (ret->Ok_0).0@, (ret->Ok_0).1.t()), //#C10 a type is read as it is written
//@@spec ty_double
    ensures
        ret is Ok ==> g_type(i@, (ret->Ok_0).0@, (ret->Ok_0).1.t()), //#C10 a type is read as it is written
//@@spec ty_float
    ensures
        ret is Ok ==> g_type(i@, (ret->Ok_0).0@, (ret->Ok_0).1.t()), //#C10 a type is read as it is written
//@@spec ty_opaque_pointer
    ensures
        ret is Ok ==> g_type(i@, (ret->Ok_0).0@, (ret->Ok_0).1.t()), //#C10 a type is read as it is written
//@@spec ty_integer
    ensures
        ret is Ok ==> g_type(i@, (ret->Ok_0).0@, (ret->Ok_0).1.t()), //#C10 a type is read as it is written
//@@spec ty_alias
    ensures
        ret is Ok ==> g_type(i@, (ret->Ok_0).0@, (ret->Ok_0).1.t()), //#C10 a type is read as it is written
//@@spec ty_varargs
    ensures
        ret is Ok ==> g_type(i@, (ret->Ok_0).0@, (ret->Ok_0).1.t()), //#C10 a type is read as it is written
//@@spec ty_packed_struct
    ensures
        ret is Ok ==> g_type(i@, (ret->Ok_0).0@, (ret->Ok_0).1.t()), //#C10 a type is read as it is written
//@@spec ty_struct_
    ensures
        ret is Ok ==> g_type(i@, (ret->Ok_0).0@, (ret->Ok_0).1.t()), //#C10 a type is read as it is written
//@@spec ty_type_
    ensures
        ret is Ok ==> g_type(i@, (ret->Ok_0).0@, (ret->Ok_0).1.t()), //#C10 a type is read as it is written
//@@spec ty__struct
    ensures
        ret is Ok ==> g_fields(i@, (ret->Ok_0).0@, ts((ret->Ok_0).1@)), //#C10 the fields of a struct, all of them, in order
//@@spec ty_fn_inputs
    ensures
        ret is Ok ==> g_inputs(i@, (ret->Ok_0).0@, ts((ret->Ok_0).1@)), //#C10 the parameter types, all of them, in order
//@@spec def_parameter
    ensures
        ret is Ok ==> el(El::Param, i@, (ret->Ok_0).0@, (ret->Ok_0).1.0.t()), //#C10 a parameter has its type
//@@spec def_parse
    ensures
        ret is Ok ==> g_define(i@, (ret->Ok_0).0@, (ret->Ok_0).1.name@, (ret->Ok_0).1.sig.ins(), (ret->Ok_0).1.sig.out(), (ret->Ok_0).1.stmts@), //#C10 C11 a definition: its name, its signature and every one of its statements
//@@spec def_label
    ensures
        ret is Ok ==> g_label(i@, (ret->Ok_0).0@) && (ret->Ok_0).1 is Label, //#C11 a label
//@@spec def_comment
    ensures
        ret is Ok ==> g_remark(i@, (ret->Ok_0).0@) && (ret->Ok_0).1 is Comment, //#C11 a comment
//@@spec def_asm
    ensures
        ret is Ok ==> (ret->Ok_0).1 is Asm && g_op(i@, (ret->Ok_0).0@, (ret->Ok_0).1), //#C11 inline assembly
//@@spec def_argument
    ensures
        ret is Ok ==> el(El::Arg, i@, (ret->Ok_0).0@, (ret->Ok_0).1.0.t()), //#C10 an argument has its type
//@@spec def_bitcast_call
    ensures
        ret is Ok ==> (ret->Ok_0).1 is BitcastCall && g_op(i@, (ret->Ok_0).0@, (ret->Ok_0).1), //#C11 a call through a bitcast: which function is called
//@@spec def_direct_call
    ensures
        ret is Ok ==> (ret->Ok_0).1 is DirectCall && g_op(i@, (ret->Ok_0).0@, (ret->Ok_0).1), //#C11 a direct call: which function is called
//@@spec def_indirect_call
    ensures
        ret is Ok ==> (ret->Ok_0).1 is IndirectCall && g_op(i@, (ret->Ok_0).0@, (ret->Ok_0).1), //#C10 an indirect call: with which signature
//@@spec def_other
    ensures
        ret is Ok ==> (ret->Ok_0).1 is Other && g_op(i@, (ret->Ok_0).0@, (ret->Ok_0).1), //#C10 C11 C17 a statement that is passed over has no call in it
//@@spec def_assign
    ensures
        ret is Ok ==> !((ret->Ok_0).1 is Label) && !((ret->Ok_0).1 is Comment) && g_assign(i@, (ret->Ok_0).0@, (ret->Ok_0).1), //#C10 C11 C17 an assignment is what is assigned
//@@spec def_stmt
    ensures
        ret is Ok ==> g_stmt(i@, (ret->Ok_0).0@, (ret->Ok_0).1), //#C10 C11 C17 a statement is what it says
//@@spec item_comment
    ensures
        ret is Ok ==> g_item(i@, (ret->Ok_0).0@, (ret->Ok_0).1), //#C11 an item is read as it is written
//@@spec item_source_filename
    ensures
        ret is Ok ==> g_item(i@, (ret->Ok_0).0@, (ret->Ok_0).1), //#C11 an item is read as it is written
//@@spec item_target
    ensures
        ret is Ok ==> g_item(i@, (ret->Ok_0).0@, (ret->Ok_0).1), //#C11 an item is read as it is written
//@@spec item_alias
    ensures
        ret is Ok ==> g_item(i@, (ret->Ok_0).0@, (ret->Ok_0).1), //#C10 C11 C17 C18 an item is read as it is written
//@@spec item_global
    ensures
        ret is Ok ==> g_item(i@, (ret->Ok_0).0@, (ret->Ok_0).1), //#C11 an item is read as it is written
//@@spec item_type_
    ensures
        ret is Ok ==> g_item(i@, (ret->Ok_0).0@, (ret->Ok_0).1), //#C11 an item is read as it is written
//@@spec item_declare
    ensures
        ret is Ok ==> g_item(i@, (ret->Ok_0).0@, (ret->Ok_0).1), //#C10 C11 C17 C18 an item is read as it is written
//@@spec item_attributes
    ensures
        ret is Ok ==> g_item(i@, (ret->Ok_0).0@, (ret->Ok_0).1), //#C11 an item is read as it is written
//@@spec item_metadata
    ensures
        ret is Ok ==> g_item(i@, (ret->Ok_0).0@, (ret->Ok_0).1), //#C11 an item is read as it is written
//@@spec item_module_asm
    ensures
        ret is Ok ==> g_item(i@, (ret->Ok_0).0@, (ret->Ok_0).1), //#C11 an item is read as it is written
//@@spec item_item
    ensures
        ret is Ok ==> g_item(i@, (ret->Ok_0).0@, (ret->Ok_0).1), //#C10 C11 C17 C18 an item is read as it is written
//@@proof ir_items.0.before
    let ghost o_ir_items_0 = vx_i_L0@;
//@@inv ir_items.0
    invariant_except_break
        vx_err_L0 is None,
    invariant
        g_items(o_ir_items_0, vx_i_L0@, vx_acc_L0@), //#C10 C11 what is read so far
    ensures
        true,
//@@proof ir_items.0.top
    let ghost p_ir_items_0 = vx_i_L0@;
    let ghost v_ir_items_0 = vx_acc_L0@;
//@@proof ir_items.0.end
    proof { items_push(o_ir_items_0, p_ir_items_0, vx_i_L0@, v_ir_items_0, vx_acc_L0@); }
//@@proof ir_items.1.before
    let ghost o_ir_items_1 = vx_i_L1@;
    let ghost mut n_ir_items_1 = 0nat;
//@@inv ir_items.1
    invariant_except_break
        vx_err_L1 is None,
    invariant
        many(Rep::Eol, n_ir_items_1, o_ir_items_1, vx_i_L1@), n_ir_items_1 == vx_acc_L1@.len(),
    ensures
        vx_err_L1 is None ==> n_ir_items_1 > 0,
//@@proof ir_items.1.top
    let ghost p_ir_items_1 = vx_i_L1@;
//@@proof ir_items.1.end
    proof { many_step(Rep::Eol, n_ir_items_1, o_ir_items_1, p_ir_items_1, vx_i_L1@); n_ir_items_1 = n_ir_items_1 + 1; }
//@@proof ir_items.2.before
    let ghost o_ir_items_2 = vx_i_L2@;
    let ghost mut n_ir_items_2 = 0nat;
//@@inv ir_items.2
    invariant_except_break
        vx_err_L2 is None,
    invariant
        many(Rep::Eol, n_ir_items_2, o_ir_items_2, vx_i_L2@), n_ir_items_2 == vx_acc_L2@.len(),
    ensures
        true,
//@@proof ir_items.2.top
    let ghost p_ir_items_2 = vx_i_L2@;
//@@proof ir_items.2.end
    proof { many_step(Rep::Eol, n_ir_items_2, o_ir_items_2, p_ir_items_2, vx_i_L2@); n_ir_items_2 = n_ir_items_2 + 1; }
//@@proof ir_getelementptr.0.before
    let ghost o_ir_getelementptr_0 = vx_i_L0@;
    let ghost mut n_ir_getelementptr_0 = 0nat;
//@@inv ir_getelementptr.0
    invariant_except_break
        vx_err_L0 is None,
    invariant
        many(Rep::Index, n_ir_getelementptr_0, o_ir_getelementptr_0, vx_i_L0@), n_ir_getelementptr_0 == vx_acc_L0@.len(),
    ensures
        vx_err_L0 is None ==> n_ir_getelementptr_0 > 0,
//@@proof ir_getelementptr.0.top
    let ghost p_ir_getelementptr_0 = vx_i_L0@;
//@@proof ir_getelementptr.0.end
    proof { many_step(Rep::Index, n_ir_getelementptr_0, o_ir_getelementptr_0, p_ir_getelementptr_0, vx_i_L0@); n_ir_getelementptr_0 = n_ir_getelementptr_0 + 1; }
//@@proof ty__struct.0.before
    let ghost o_ty__struct_0 = vx_i_L0@;
//@@inv ty__struct.0
    invariant_except_break
        vx_err_L0 is None,
    invariant
        g_list(o_ty__struct_0, vx_i_L0@, ts(vx_acc_L0@), vx_acc_L0@.len()) && vx_acc_L0@.len() >= 0, //#C10 C11 what is read so far
    ensures
        true,
//@@proof ty__struct.0.top
    let ghost p_ty__struct_0 = vx_i_L0@;
    let ghost v_ty__struct_0 = vx_acc_L0@;
//@@proof ty__struct.0.end
    proof { list_push(o_ty__struct_0, p_ty__struct_0, vx_i_L0@, v_ty__struct_0, vx_acc_L0@); }
//@@proof ty_fn_inputs.0.before
    let ghost o_ty_fn_inputs_0 = vx_i_L0@;
//@@inv ty_fn_inputs.0
    invariant_except_break
        vx_err_L0 is None,
    invariant
        g_list(o_ty_fn_inputs_0, vx_i_L0@, ts(vx_acc_L0@), vx_acc_L0@.len()) && vx_acc_L0@.len() >= 0, //#C10 C11 what is read so far
    ensures
        true,
//@@proof ty_fn_inputs.0.top
    let ghost p_ty_fn_inputs_0 = vx_i_L0@;
    let ghost v_ty_fn_inputs_0 = vx_acc_L0@;
//@@proof ty_fn_inputs.0.end
    proof { list_push(o_ty_fn_inputs_0, p_ty_fn_inputs_0, vx_i_L0@, v_ty_fn_inputs_0, vx_acc_L0@); }
//@@proof def_parameter.0.before
    let ghost o_def_parameter_0 = vx_i_L0@;
    let ghost mut n_def_parameter_0 = 0nat;
//@@inv def_parameter.0
    invariant_except_break
        vx_err_L0 is None,
    invariant
        many(Rep::SpAttr, n_def_parameter_0, o_def_parameter_0, vx_i_L0@), n_def_parameter_0 == vx_acc_L0@.len(),
    ensures
        true,
//@@proof def_parameter.0.top
    let ghost p_def_parameter_0 = vx_i_L0@;
//@@proof def_parameter.0.end
    proof { many_step(Rep::SpAttr, n_def_parameter_0, o_def_parameter_0, p_def_parameter_0, vx_i_L0@); n_def_parameter_0 = n_def_parameter_0 + 1; }
//@@proof def_parse.0.before
    let ghost o_def_parse_0 = vx_i_L0@;
    let ghost mut n_def_parse_0 = 0nat;
//@@inv def_parse.0
    invariant_except_break
        vx_err_L0 is None,
    invariant
        many(Rep::AttrSp, n_def_parse_0, o_def_parse_0, vx_i_L0@), n_def_parse_0 == vx_acc_L0@.len(),
    ensures
        true,
//@@proof def_parse.0.top
    let ghost p_def_parse_0 = vx_i_L0@;
//@@proof def_parse.0.end
    proof { many_step(Rep::AttrSp, n_def_parse_0, o_def_parse_0, p_def_parse_0, vx_i_L0@); n_def_parse_0 = n_def_parse_0 + 1; }
//@@proof def_parse.1.before
    let ghost o_def_parse_1 = vx_i_L1@;
//@@inv def_parse.1
    invariant_except_break
        vx_err_L1 is None,
    invariant
        g_els(El::Param, o_def_parse_1, vx_i_L1@, ts(vx_acc_L1@)), //#C10 C11 what is read so far
    ensures
        true,
//@@proof def_parse.1.top
    let ghost p_def_parse_1 = vx_i_L1@;
    let ghost v_def_parse_1 = vx_acc_L1@;
//@@proof def_parse.1.end
    proof { els_push(El::Param, o_def_parse_1, p_def_parse_1, vx_i_L1@, v_def_parse_1, vx_acc_L1@); }
//@@proof def_parse.2.before
    let ghost o_def_parse_2 = vx_i_L2@;
//@@inv def_parse.2
    invariant_except_break
        vx_err_L2 is None,
    invariant
        g_stmts(o_def_parse_2, vx_i_L2@, vx_acc_L2@), //#C10 C11 what is read so far
    ensures
        vx_err_L2 is None ==> vx_acc_L2@.len() > 0,
//@@proof def_parse.2.top
    let ghost p_def_parse_2 = vx_i_L2@;
    let ghost v_def_parse_2 = vx_acc_L2@;
//@@proof def_parse.2.end
    proof { stmts_push(o_def_parse_2, p_def_parse_2, vx_i_L2@, v_def_parse_2, vx_acc_L2@); }
//@@proof def_parse.3.before
    let ghost o_def_parse_3 = vx_i_L3@;
    let ghost mut n_def_parse_3 = 0nat;
//@@inv def_parse.3
    invariant_except_break
        vx_err_L3 is None,
    invariant
        many(Rep::Eol, n_def_parse_3, o_def_parse_3, vx_i_L3@), n_def_parse_3 == vx_acc_L3@.len(),
    ensures
        vx_err_L3 is None ==> n_def_parse_3 > 0,
//@@proof def_parse.3.top
    let ghost p_def_parse_3 = vx_i_L3@;
//@@proof def_parse.3.end
    proof { many_step(Rep::Eol, n_def_parse_3, o_def_parse_3, p_def_parse_3, vx_i_L3@); n_def_parse_3 = n_def_parse_3 + 1; }
//@@proof def_asm.0.before
    let ghost o_def_asm_0 = vx_i_L0@;
    let ghost mut n_def_asm_0 = 0nat;
//@@inv def_asm.0
    invariant_except_break
        vx_err_L0 is None,
    invariant
        many(Rep::IdentSp, n_def_asm_0, o_def_asm_0, vx_i_L0@), n_def_asm_0 == vx_acc_L0@.len(),
    ensures
        true,
//@@proof def_asm.0.top
    let ghost p_def_asm_0 = vx_i_L0@;
//@@proof def_asm.0.end
    proof { many_step(Rep::IdentSp, n_def_asm_0, o_def_asm_0, p_def_asm_0, vx_i_L0@); n_def_asm_0 = n_def_asm_0 + 1; }
//@@proof def_argument.0.before
    let ghost o_def_argument_0 = vx_i_L0@;
    let ghost mut n_def_argument_0 = 0nat;
//@@inv def_argument.0
    invariant_except_break
        vx_err_L0 is None,
    invariant
        many(Rep::AttrSp, n_def_argument_0, o_def_argument_0, vx_i_L0@), n_def_argument_0 == vx_acc_L0@.len(),
    ensures
        true,
//@@proof def_argument.0.top
    let ghost p_def_argument_0 = vx_i_L0@;
//@@proof def_argument.0.end
    proof { many_step(Rep::AttrSp, n_def_argument_0, o_def_argument_0, p_def_argument_0, vx_i_L0@); n_def_argument_0 = n_def_argument_0 + 1; }
//@@proof def_bitcast_call.0.before
    let ghost o_def_bitcast_call_0 = vx_i_L0@;
    let ghost mut n_def_bitcast_call_0 = 0nat;
//@@inv def_bitcast_call.0
    invariant_except_break
        vx_err_L0 is None,
    invariant
        many(Rep::AttrSp, n_def_bitcast_call_0, o_def_bitcast_call_0, vx_i_L0@), n_def_bitcast_call_0 == vx_acc_L0@.len(),
    ensures
        true,
//@@proof def_bitcast_call.0.top
    let ghost p_def_bitcast_call_0 = vx_i_L0@;
//@@proof def_bitcast_call.0.end
    proof { many_step(Rep::AttrSp, n_def_bitcast_call_0, o_def_bitcast_call_0, p_def_bitcast_call_0, vx_i_L0@); n_def_bitcast_call_0 = n_def_bitcast_call_0 + 1; }
//@@proof def_direct_call.0.before
    let ghost o_def_direct_call_0 = vx_i_L0@;
    let ghost mut n_def_direct_call_0 = 0nat;
//@@inv def_direct_call.0
    invariant_except_break
        vx_err_L0 is None,
    invariant
        many(Rep::AttrSp, n_def_direct_call_0, o_def_direct_call_0, vx_i_L0@), n_def_direct_call_0 == vx_acc_L0@.len(),
    ensures
        true,
//@@proof def_direct_call.0.top
    let ghost p_def_direct_call_0 = vx_i_L0@;
//@@proof def_direct_call.0.end
    proof { many_step(Rep::AttrSp, n_def_direct_call_0, o_def_direct_call_0, p_def_direct_call_0, vx_i_L0@); n_def_direct_call_0 = n_def_direct_call_0 + 1; }
//@@proof def_indirect_call.0.before
    let ghost o_def_indirect_call_0 = vx_i_L0@;
    let ghost mut n_def_indirect_call_0 = 0nat;
//@@inv def_indirect_call.0
    invariant_except_break
        vx_err_L0 is None,
    invariant
        many(Rep::AttrSp, n_def_indirect_call_0, o_def_indirect_call_0, vx_i_L0@), n_def_indirect_call_0 == vx_acc_L0@.len(),
    ensures
        true,
//@@proof def_indirect_call.0.top
    let ghost p_def_indirect_call_0 = vx_i_L0@;
//@@proof def_indirect_call.0.end
    proof { many_step(Rep::AttrSp, n_def_indirect_call_0, o_def_indirect_call_0, p_def_indirect_call_0, vx_i_L0@); n_def_indirect_call_0 = n_def_indirect_call_0 + 1; }
//@@proof def_indirect_call.1.before
    let ghost o_def_indirect_call_1 = vx_i_L1@;
//@@inv def_indirect_call.1
    invariant_except_break
        vx_err_L1 is None,
    invariant
        g_els(El::Arg, o_def_indirect_call_1, vx_i_L1@, ts(vx_acc_L1@)), //#C10 C11 what is read so far
    ensures
        true,
//@@proof def_indirect_call.1.top
    let ghost p_def_indirect_call_1 = vx_i_L1@;
    let ghost v_def_indirect_call_1 = vx_acc_L1@;
//@@proof def_indirect_call.1.end
    proof { els_push(El::Arg, o_def_indirect_call_1, p_def_indirect_call_1, vx_i_L1@, v_def_indirect_call_1, vx_acc_L1@); }
//@@proof def_other.0.before
    let ghost o_def_other_0 = vx_i_L0@;
//@@inv def_other.0
    invariant_except_break
        vx_err_L0 is None,
    invariant
        g_other(o_def_other_0, vx_i_L0@, vx_acc_L0@.len()), //#C10 C11 what is read so far
    ensures
        vx_err_L0 is None ==> vx_acc_L0@.len() > 0,
//@@proof def_other.0.top
    let ghost p_def_other_0 = vx_i_L0@;
    let ghost v_def_other_0 = vx_acc_L0@;
//@@proof def_other.0.end
    proof { words_push(o_def_other_0, p_def_other_0, vx_i_L0@, v_def_other_0, vx_acc_L0@); }
//@@proof item_alias.0.before
    let ghost o_item_alias_0 = vx_i_L0@;
    let ghost mut n_item_alias_0 = 0nat;
//@@inv item_alias.0
    invariant_except_break
        vx_err_L0 is None,
    invariant
        many(Rep::AttrSp, n_item_alias_0, o_item_alias_0, vx_i_L0@), n_item_alias_0 == vx_acc_L0@.len(),
    ensures
        true,
//@@proof item_alias.0.top
    let ghost p_item_alias_0 = vx_i_L0@;
//@@proof item_alias.0.end
    proof { many_step(Rep::AttrSp, n_item_alias_0, o_item_alias_0, p_item_alias_0, vx_i_L0@); n_item_alias_0 = n_item_alias_0 + 1; }
//@@proof item_global.0.before
    let ghost o_item_global_0 = vx_i_L0@;
    let ghost mut n_item_global_0 = 0nat;
//@@inv item_global.0
    invariant_except_break
        vx_err_L0 is None,
    invariant
        many(Rep::AttrSp, n_item_global_0, o_item_global_0, vx_i_L0@), n_item_global_0 == vx_acc_L0@.len(),
    ensures
        true,
//@@proof item_global.0.top
    let ghost p_item_global_0 = vx_i_L0@;
//@@proof item_global.0.end
    proof { many_step(Rep::AttrSp, n_item_global_0, o_item_global_0, p_item_global_0, vx_i_L0@); n_item_global_0 = n_item_global_0 + 1; }
//@@proof item_declare.0.before
    let ghost o_item_declare_0 = vx_i_L0@;
    let ghost mut n_item_declare_0 = 0nat;
//@@inv item_declare.0
    invariant_except_break
        vx_err_L0 is None,
    invariant
        many(Rep::AttrSp, n_item_declare_0, o_item_declare_0, vx_i_L0@), n_item_declare_0 == vx_acc_L0@.len(),
    ensures
        true,
//@@proof item_declare.0.top
    let ghost p_item_declare_0 = vx_i_L0@;
//@@proof item_declare.0.end
    proof { many_step(Rep::AttrSp, n_item_declare_0, o_item_declare_0, p_item_declare_0, vx_i_L0@); n_item_declare_0 = n_item_declare_0 + 1; }
//@@proof item_declare.1.before
    let ghost o_item_declare_1 = vx_i_L1@;
//@@inv item_declare.1
    invariant_except_break
        vx_err_L1 is None,
    invariant
        g_els(El::Decl, o_item_declare_1, vx_i_L1@, ts(vx_acc_L1@)), //#C10 C11 what is read so far
    ensures
        true,
//@@proof item_declare.1.top
    let ghost p_item_declare_1 = vx_i_L1@;
    let ghost v_item_declare_1 = vx_acc_L1@;
//@@proof item_declare.1.end
    proof { els_push(El::Decl, o_item_declare_1, p_item_declare_1, vx_i_L1@, v_item_declare_1, vx_acc_L1@); }
//@@proof item_declare.2.before
    let ghost o_item_declare_2 = vx_i_L2@;
    let ghost mut n_item_declare_2 = 0nat;
//@@inv item_declare.2
    invariant_except_break
        vx_err_L2 is None,
    invariant
        many(Rep::SpAttr, n_item_declare_2, o_item_declare_2, vx_i_L2@), n_item_declare_2 == vx_acc_L2@.len(),
    ensures
        true,
//@@proof item_declare.2.top
    let ghost p_item_declare_2 = vx_i_L2@;
//@@proof item_declare.2.end
    proof { many_step(Rep::SpAttr, n_item_declare_2, o_item_declare_2, p_item_declare_2, vx_i_L2@); n_item_declare_2 = n_item_declare_2 + 1; }
//@@inv ty_type_.0
    invariant
        g_type(i0, i@, ty.t()), //#C10 a type is read as it is written, to its last star
//@@inv ty_type_.1
    invariant
        g_type(i0, i@, ty.t()), //#C10 a type is read as it is written, to its last star
//@@inv ty_type_.2
    invariant
        g_type(i0, i@, ty.t()), //#C10 a type is read as it is written, to its last star
//@@inv ty_type_.3
    invariant
        g_type(i0, i@, ty.t()), //#C10 a type is read as it is written, to its last star
//@@proof ty_type_.entry
    let ghost i0 = i@;
//@@proof ty_type_.0.before
    proof { let s = ty->Fn_0; assert(s.ins() == ts(s.inputs@)); assert(s.out() == tb(s.output)); assert(ty.t() == T::Fn(s.ins(), s.out())); }
//@@proof ty_type_.2.top
    let ghost (p2, t2) = (i@, ty.t());
//@@proof ty_type_.3.before
    proof { let s = ty->Fn_0; assert(s.ins() == ts(s.inputs@)); assert(s.out() == tb(s.output)); assert(ty.t() == T::Fn(s.ins(), s.out())); }
//@@proof ir_attribute.entry
    proof { lits(); reveal_strlit("dereferenceable"); reveal_strlit("dereferenceable_or_null"); reveal_strlit("alignstack"); reveal_strlit("sret"); reveal_strlit("preallocated"); reveal_strlit("inalloca"); reveal_strlit("elementtype"); reveal_strlit("byval"); reveal_strlit("byref"); reveal_strlit("align"); reveal_strlit("double"); reveal_strlit("float"); reveal_strlit("void"); reveal_strlit("ptr"); reveal_strlit("bitcast"); reveal_strlit("getelementptr"); reveal_strlit("alias"); reveal_strlit("global"); reveal_strlit("constant");
        assert("sret"@[0] != "void"@[0]); assert("inalloca"@[0] != "constant"@[0]); assert("byval"@[0] != "float"@[0]); assert("byval"@[0] != "alias"@[0]); assert("byref"@[0] != "float"@[0]); assert("byref"@[0] != "alias"@[0]); assert("align"@[0] != "float"@[0]); assert("align"@[3] != "alias"@[3]); }
//@@proof def_other.entry
    proof { lits(); }
//@@proof def_indirect_call.entry
    proof { sigs(); }
//@@proof def_parse.entry
    proof { sigs(); }
//@@proof item_declare.entry
    proof { sigs(); }
//@@proof ty_integer.entry
    proof { reveal(g_dig); }
//@@proof ty_array.entry
    proof { reveal(g_dig); }
//@@proof ty_mvt_vector.entry
    proof { reveal(g_dig); }
//@@code
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
//@@include iter.inc
//@@include strs.inc
//@@insert Type
//@@insert FnSig
//@@insert Define
//@@insert Stmt
//@@insert Declare
//@@insert Item
//@@insert Comment
//@@insert Ident
//@@insert Global
//@@insert Local
//@@insert Null
//@@insert Attribute
//@@insert Bitcast
//@@insert GetElementPtr
//@@insert Function
//@@insert Alias
//@@insert IrString
//@@insert Parameter
//@@insert Argument
//@@include sigt.inc
//@@include gram.inc
//@@include nom.inc
pub proof fn stmts_push(i: Seq<char>, a: Seq<char>, r: Seq<char>, v0: Seq<Stmt>, v: Seq<Stmt>)
    requires v.len() == v0.len() + 1, v0 =~= v.drop_last(), g_stmts(i, a, v0), next_stmt(v0.len(), a, r, v.last())
    ensures g_stmts(i, r, v)
{ assert(v.drop_last() == v0); assert(next_stmt((v.len() - 1) as nat, a, r, v.last())); }
pub proof fn items_push(i: Seq<char>, a: Seq<char>, r: Seq<char>, v0: Seq<Item>, v: Seq<Item>)
    requires v.len() == v0.len() + 1, v0 =~= v.drop_last(), g_items(i, a, v0), next_item(v0.len(), a, r, v.last())
    ensures g_items(i, r, v)
{ assert(v.drop_last() == v0); assert(next_item((v.len() - 1) as nat, a, r, v.last())); }
pub proof fn words_push(i: Seq<char>, a: Seq<char>, r: Seq<char>, v0: Seq<()>, v: Seq<()>)
    requires v.len() == v0.len() + 1, g_other(i, a, v0.len()), next_word(v0.len(), a, r)
    ensures g_other(i, r, v.len())
{ assert(g_other(i, a, (v.len() - 1) as nat) && next_word((v.len() - 1) as nat, a, r)); }
#[verifier::exec_allows_no_decreases_clause]
//@@insert ir_parse
#[verifier::exec_allows_no_decreases_clause]
//@@insert ir_items
#[verifier::exec_allows_no_decreases_clause]
//@@insert ir_comment
#[verifier::exec_allows_no_decreases_clause]
//@@insert ir_ident
#[verifier::exec_allows_no_decreases_clause]
//@@insert ir_ident_p0
#[verifier::exec_allows_no_decreases_clause]
//@@insert ir_global
#[verifier::exec_allows_no_decreases_clause]
//@@insert ir_local
#[verifier::exec_allows_no_decreases_clause]
//@@insert ir_null
#[verifier::exec_allows_no_decreases_clause]
//@@insert ir_undef
#[verifier::exec_allows_no_decreases_clause]
//@@insert ir_attribute
#[verifier::exec_allows_no_decreases_clause]
//@@insert ir_attribute_p0
#[verifier::exec_allows_no_decreases_clause]
//@@insert ir_bitcast
#[verifier::exec_allows_no_decreases_clause]
//@@insert ir_getelementptr
#[verifier::exec_allows_no_decreases_clause]
//@@insert ir_name
#[verifier::exec_allows_no_decreases_clause]
//@@insert ir_function
#[verifier::exec_allows_no_decreases_clause]
//@@insert ir_alias
#[verifier::exec_allows_no_decreases_clause]
//@@insert ir_string
#[verifier::exec_allows_no_decreases_clause]
//@@insert ty_array
#[verifier::exec_allows_no_decreases_clause]
//@@insert ty_mvt_vector
#[verifier::exec_allows_no_decreases_clause]
//@@insert ty_double
#[verifier::exec_allows_no_decreases_clause]
//@@insert ty_float
#[verifier::exec_allows_no_decreases_clause]
//@@insert ty_opaque_pointer
#[verifier::exec_allows_no_decreases_clause]
//@@insert ty_integer
#[verifier::exec_allows_no_decreases_clause]
//@@insert ty_alias
#[verifier::exec_allows_no_decreases_clause]
//@@insert ty_varargs
#[verifier::exec_allows_no_decreases_clause]
//@@insert ty__struct
#[verifier::exec_allows_no_decreases_clause]
//@@insert ty_packed_struct
#[verifier::exec_allows_no_decreases_clause]
//@@insert ty_struct_
#[verifier::exec_allows_no_decreases_clause]
//@@insert ty_type_
#[verifier::exec_allows_no_decreases_clause]
//@@insert ty_fn_inputs
#[verifier::exec_allows_no_decreases_clause]
//@@insert def_parameter
#[verifier::exec_allows_no_decreases_clause]
//@@insert def_parse
#[verifier::exec_allows_no_decreases_clause]
//@@insert def_label
#[verifier::exec_allows_no_decreases_clause]
//@@insert def_comment
#[verifier::exec_allows_no_decreases_clause]
//@@insert def_asm
#[verifier::exec_allows_no_decreases_clause]
//@@insert def_argument
#[verifier::exec_allows_no_decreases_clause]
//@@insert def_bitcast_call
#[verifier::exec_allows_no_decreases_clause]
//@@insert def_direct_call
#[verifier::exec_allows_no_decreases_clause]
//@@insert def_indirect_call
#[verifier::exec_allows_no_decreases_clause]
//@@insert def_other
#[verifier::exec_allows_no_decreases_clause]
//@@insert def_assign
#[verifier::exec_allows_no_decreases_clause]
//@@insert def_stmt
#[verifier::exec_allows_no_decreases_clause]
//@@insert item_comment
#[verifier::exec_allows_no_decreases_clause]
//@@insert item_source_filename
#[verifier::exec_allows_no_decreases_clause]
//@@insert item_target
#[verifier::exec_allows_no_decreases_clause]
//@@insert item_alias
#[verifier::exec_allows_no_decreases_clause]
//@@insert item_global
#[verifier::exec_allows_no_decreases_clause]
//@@insert item_type_
#[verifier::exec_allows_no_decreases_clause]
//@@insert item_declare
#[verifier::exec_allows_no_decreases_clause]
//@@insert item_attributes
#[verifier::exec_allows_no_decreases_clause]
//@@insert item_metadata
#[verifier::exec_allows_no_decreases_clause]
//@@insert item_module_asm
#[verifier::exec_allows_no_decreases_clause]
//@@insert item_item
fn main() {}
}
