R='(ret->Ok_0).0@'; V='(ret->Ok_0).1'
specs=[]
def sp(n, e, tag, why): specs.append('//@@spec %s\n    ensures\n        ret is Ok ==> %s, //#%s %s\n' % (n, e, tag, why))
ALL='C10 C11 C17 C18'
sp('ir_parse','g_module(ll@, (ret->Ok_0)@)',ALL,'what is read is all of the text, in order, item for item')
sp('ir_items','g_module(i@, %s@)'%V,ALL,'nothing of the text is left out')
sp('ir_comment','g_remark(i@, %s)'%R,ALL,'a comment is the rest of a line')
specs.append('//@@spec ir_ident_p0\n    ensures ret == id_char(c), //#C11 C20 the characters of a name\n')
sp('ir_ident','g_ident(i@, %s, %s.0@)'%(R,V),'C11 C20','an identifier is a name to its last character')
sp('ir_global','g_global(i@, %s, ov(%s.0))'%(R,V),'C11','the name of a global')
sp('ir_local','g_local(i@, %s)'%R,'C11','a local')
sp('ir_null','g_lit(i@, %s, "null"@)'%R,'C10','the null constant')
sp('ir_undef','g_lit(i@, %s, "undef"@)'%R,'C10','the undef constant')
specs.append('//@@spec ir_attribute_p0\n    ensures ret == word_char(c), //#C10 C11 the characters of an attribute\n')
sp('ir_attribute','g_attr(i@, %s)'%R,'C10 C11','an attribute is no type, operation or item keyword')
sp('ir_bitcast','g_bitcast(i@, %s, ov(%s.0))'%(R,V),'C11','a bitcast names the global that is cast')
sp('ir_getelementptr','g_gep(i@, %s, ov(%s.0))'%(R,V),'C11','so does an address computation')
sp('ir_name','g_name(i@, %s, %s@)'%(R,V),'C11 C20','a name, without its quotes')
sp('ir_function','g_function(i@, %s, %s.0@)'%(R,V),'C11 C20','a function by its whole name')
sp('ir_alias','g_alias(i@, %s, %s.0@)'%(R,V),'C10','a type by its whole name')
sp('ir_string','g_string(i@, %s, %s.0@)'%(R,V),'C11 C20','a string, to its closing quote')
for f in ['array','mvt_vector','double','float','opaque_pointer','integer','alias','varargs','packed_struct','struct_','type_']:
    kind={'array':'T::Array(_, _)'}.get(f)
    sp('ty_'+f,'g_type(i@, %s, %s.t())'%(R,V),'C10','a type is read as it is written')
sp('ty__struct','g_fields(i@, %s, ts(%s@))'%(R,V),'C10','the fields of a struct, all of them, in order')
sp('ty_fn_inputs','g_inputs(i@, %s, ts(%s@))'%(R,V),'C10','the parameter types, all of them, in order')
sp('def_parameter','el(El::Param, i@, %s, %s.0.t())'%(R,V),'C10','a parameter has its type')
sp('def_parse','g_define(i@, %s, %s.name@, %s.sig.ins(), %s.sig.out(), %s.stmts@)'%(R,V,V,V,V),'C10 C11','a definition: its name, its signature and every one of its statements')
sp('def_label','g_label(i@, %s) && %s is Label'%(R,V),'C11','a label')
sp('def_comment','g_remark(i@, %s) && %s is Comment'%(R,V),'C11','a comment')
sp('def_asm','%s is Asm && g_op(i@, %s, %s)'%(V,R,V),'C11','inline assembly')
sp('def_argument','el(El::Arg, i@, %s, %s.0.t())'%(R,V),'C10','an argument has its type')
sp('def_bitcast_call','%s is BitcastCall && g_op(i@, %s, %s)'%(V,R,V),'C11','a call through a bitcast: which function is called')
sp('def_direct_call','%s is DirectCall && g_op(i@, %s, %s)'%(V,R,V),'C11','a direct call: which function is called')
sp('def_indirect_call','%s is IndirectCall && g_op(i@, %s, %s)'%(V,R,V),'C10','an indirect call: with which signature')
sp('def_other','%s is Other && g_op(i@, %s, %s)'%(V,R,V),'C10 C11 C17','a statement that is passed over has no call in it')
OP='!(%s is Label) && !(%s is Comment)'%(V,V)
sp('def_assign','%s && g_assign(i@, %s, %s)'%(OP,R,V),'C10 C11 C17','an assignment is what is assigned')
sp('def_stmt','g_stmt(i@, %s, %s)'%(R,V),'C10 C11 C17','a statement is what it says')
for f in ['comment','source_filename','target','alias','global','type_','declare','attributes','metadata','module_asm','item']:
    sp('item_'+f,'g_item(i@, %s, %s)'%(R,V),ALL if f in('item','declare','alias') else 'C11','an item is read as it is written')

loops=[]
def many(id, k, ext='', n1=False):
    l=id.rsplit('.',1)[1]
    u=id.replace('.','_')
    loops.append(f'''//@@proof {id}.before
    let ghost o_{u} = vx_i_L{l}@;
    let ghost mut n_{u} = 0nat;
//@@inv {id}
    invariant_except_break
        vx_err_L{l} is None,
    invariant
        many(Rep::{k}, n_{u}, o_{u}, vx_i_L{l}@), n_{u} == vx_acc_L{l}@.len(),
    ensures
        {'vx_err_L%s is None ==> n_%s > 0,' % (l,u) if n1 else 'true,'}
//@@proof {id}.top
    let ghost p_{u} = vx_i_L{l}@;
//@@proof {id}.end
    proof {{ many_step(Rep::{k}, n_{u}, o_{u}, p_{u}, vx_i_L{l}@); n_{u} = n_{u} + 1; }}
''')
def lst(id, lem, rel, n1=False, inv=''):
    l=id.rsplit('.',1)[1]
    u=id.replace('.','_')
    loops.append(f'''//@@proof {id}.before
    let ghost o_{u} = vx_i_L{l}@;
//@@inv {id}
    invariant_except_break
        vx_err_L{l} is None,
    invariant
        {rel % (f'o_{u}, vx_i_L{l}@', f'vx_acc_L{l}@')}, //#C10 C11 what is read so far
    ensures
        {'vx_err_L%s is None ==> vx_acc_L%s@.len() > 0,' % (l,l) if n1 else 'true,'}
//@@proof {id}.top
    let ghost p_{u} = vx_i_L{l}@;
    let ghost v_{u} = vx_acc_L{l}@;
//@@proof {id}.end
    proof {{ {lem % (f'o_{u}, p_{u}, vx_i_L{l}@, v_{u}, vx_acc_L{l}@')} }}
''')
TY=('list_push(%s);','g_list(%s, ts({0}), {0}.len())')
def tl(id):
    l=id.rsplit('.',1)[1]
    lst(id,'list_push(%s);','g_list(%%s, ts(vx_acc_L%s@), vx_acc_L%s@.len()) && %%s.len() >= 0'%(l,l))
def el(id,k):
    lst(id,'els_push(El::%s, %%s);'%k,'g_els(El::%s, %%s, ts(%%s))'%k)
lst('ir_items.0','items_push(%s);','g_items(%s, %s)')
many('ir_items.1','Eol',n1=True)
many('ir_items.2','Eol')
many('ir_getelementptr.0','Index',n1=True)
tl('ty__struct.0'); tl('ty_fn_inputs.0')
many('def_parameter.0','SpAttr')
many('def_parse.0','AttrSp'); el('def_parse.1','Param')
lst('def_parse.2','stmts_push(%s);','g_stmts(%s, %s)',n1=True)
many('def_parse.3','Eol',n1=True)
many('def_asm.0','IdentSp')
many('def_argument.0','AttrSp')
many('def_bitcast_call.0','AttrSp')
many('def_direct_call.0','AttrSp')
many('def_indirect_call.0','AttrSp'); el('def_indirect_call.1','Arg')
lst('def_other.0','words_push(%s);','g_other(%s, %s.len())',n1=True)
many('item_alias.0','AttrSp'); many('item_global.0','AttrSp'); many('item_declare.0','AttrSp')
el('item_declare.1','Decl'); many('item_declare.2','SpAttr')
for k in '0123':
    loops.append(f'''//@@inv ty_type_.{k}
    invariant
        g_type(i0, i@, ty.t()), //#C10 a type is read as it is written, to its last star
''')
loops.append('//@@proof ty_type_.entry\n    let ghost i0 = i@;\n')
loops.append('''//@@proof ty_type_.0.before
    proof { let s = ty->Fn_0; assert(s.ins() == ts(s.inputs@)); assert(s.out() == tb(s.output)); assert(ty.t() == T::Fn(s.ins(), s.out())); }
//@@proof ty_type_.2.top
    let ghost (p2, t2) = (i@, ty.t());
//@@proof ty_type_.3.before
    proof { let s = ty->Fn_0; assert(s.ins() == ts(s.inputs@)); assert(s.out() == tb(s.output)); assert(ty.t() == T::Fn(s.ins(), s.out())); }
''')
loops.append('''//@@proof ir_attribute.entry
    proof { lits(); reveal_strlit("dereferenceable"); reveal_strlit("dereferenceable_or_null"); reveal_strlit("alignstack"); reveal_strlit("sret"); reveal_strlit("preallocated"); reveal_strlit("inalloca"); reveal_strlit("elementtype"); reveal_strlit("byval"); reveal_strlit("byref"); reveal_strlit("align"); reveal_strlit("double"); reveal_strlit("float"); reveal_strlit("void"); reveal_strlit("ptr"); reveal_strlit("bitcast"); reveal_strlit("getelementptr"); reveal_strlit("alias"); reveal_strlit("global"); reveal_strlit("constant");
        assert("sret"@[0] != "void"@[0]); assert("inalloca"@[0] != "constant"@[0]); assert("byval"@[0] != "float"@[0]); assert("byval"@[0] != "alias"@[0]); assert("byref"@[0] != "float"@[0]); assert("byref"@[0] != "alias"@[0]); assert("align"@[0] != "float"@[0]); assert("align"@[3] != "alias"@[3]); }
//@@proof def_other.entry
    proof { lits(); }
''')
for f in ['def_indirect_call','def_parse','item_declare']:
    loops.append('//@@proof %s.entry\n    proof { sigs(); }\n'%f)
for f in ['ty_integer','ty_array','ty_mvt_vector']:
    loops.append('//@@proof %s.entry\n    proof { reveal(g_dig); }\n'%f)
fns='ir_parse ir_items ir_comment ir_ident ir_ident_p0 ir_global ir_local ir_null ir_undef ir_attribute ir_attribute_p0 ir_bitcast ir_getelementptr ir_name ir_function ir_alias ir_string ty_array ty_mvt_vector ty_double ty_float ty_opaque_pointer ty_integer ty_alias ty_varargs ty__struct ty_packed_struct ty_struct_ ty_type_ ty_fn_inputs def_parameter def_parse def_label def_comment def_asm def_argument def_bitcast_call def_direct_call def_indirect_call def_other def_assign def_stmt item_comment item_source_filename item_target item_alias item_global item_type_ item_declare item_attributes item_metadata item_module_asm item_item'.split()
head='// C10, C11, C17, C18: the LLVM-IR parser reads what the text says\n'+''.join(specs)+''.join(loops)
code='''//@@code
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
//@@include iter.inc
//@@include strs.inc
'''+''.join('//@@insert %s\n'%s for s in 'Type FnSig Define Stmt Declare Item Comment Ident Global Local Null Attribute Bitcast GetElementPtr Function Alias IrString Parameter Argument'.split())+'''//@@include sigt.inc
//@@include gram.inc
//@@include nom.inc
pub proof fn stmts_push(i: Seq<char>, a: Seq<char>, r: Seq<char>, v0: Seq<Stmt>, v: Seq<Stmt>)
    requires v.len() == v0.len() + 1, v0 =~= v.drop_last(), g_stmts(i, a, v0), next_stmt(v0.len(), a, r, v.last())
    ensures g_stmts(i, r, v)
{ assert(v.drop_last() == v0); assert(next_stmt((v.len() - 1) as nat, a, r, v.last())); }
pub proof fn items_push(i: Seq<char>, a: Seq<char>, r: Seq<char>, v0: Seq<Item>, v: Seq<Item>)
    requires v.len() == v0.len() + 1, v0 =~= v.drop_last(), g_items(i, a, v0), next_item(v0.len(), a, r, v.last())
    ensures g_items(i, r, v)
{ assert(v.drop_last() == v0); assert(next_item((v.len() - 1) as nat, a, r, v.last())); }
pub proof fn words_push(i: Seq<char>, a: Seq<char>, r: Seq<char>, v0: Seq<()>, v: Seq<()>)
    requires v.len() == v0.len() + 1, g_other(i, a, v0.len()), next_word(v0.len(), a, r)
    ensures g_other(i, r, v.len())
{ assert(g_other(i, a, (v.len() - 1) as nat) && next_word((v.len() - 1) as nat, a, r)); }
'''+''.join('#[verifier::exec_allows_no_decreases_clause]\n//@@insert %s\n'%f for f in fns)+'''fn main() {}
}
'''
open('/verif/specs/parser.rs','w').write(head+code)
