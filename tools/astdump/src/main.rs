//! Dumps the syntax tree of Rust source files as JSON (one object per file).
//! Nothing is executed or expanded; well-known macros have their arguments
//! parsed as expressions so that the analyser can look inside them.
use proc_macro2::Span;
use quote::ToTokens;
use serde_json::{json, Value};
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::*;

fn ts<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
fn line(s: Span) -> usize {
    s.start().line
}
fn sp<T: syn::spanned::Spanned>(t: &T) -> usize {
    line(t.span())
}

fn attrs(a: &[Attribute]) -> Value {
    Value::Array(
        a.iter()
            .filter(|x| !x.path().is_ident("doc"))
            .map(|x| Value::String(ts(&x.meta)))
            .collect(),
    )
}

fn vis(v: &Visibility) -> Value {
    Value::String(ts(v))
}

fn gargs(a: &PathArguments) -> Value {
    match a {
        PathArguments::None => Value::Null,
        PathArguments::AngleBracketed(ab) => Value::Array(
            ab.args
                .iter()
                .map(|g| match g {
                    GenericArgument::Type(t) => ty(t),
                    GenericArgument::Lifetime(l) => json!({"k":"lt","n":l.ident.to_string()}),
                    GenericArgument::Const(e) => json!({"k":"const","e":expr(e)}),
                    GenericArgument::AssocType(a) => {
                        json!({"k":"assoc","n":a.ident.to_string(),"t":ty(&a.ty)})
                    }
                    o => json!({"k":"other","s":ts(o)}),
                })
                .collect(),
        ),
        PathArguments::Parenthesized(p) => json!([{"k":"fnargs",
            "in": p.inputs.iter().map(ty).collect::<Vec<_>>(),
            "out": match &p.output { ReturnType::Default=>Value::Null, ReturnType::Type(_,t)=>ty(t)}}]),
    }
}

fn path(q: &Option<QSelf>, p: &Path) -> Value {
    let segs: Vec<Value> = p
        .segments
        .iter()
        .map(|s| json!({"n":s.ident.to_string(),"a":gargs(&s.arguments)}))
        .collect();
    match q {
        Some(q) => json!({"g":p.leading_colon.is_some(),"s":segs,"q":ty(&q.ty),"qp":q.position}),
        None => json!({"g":p.leading_colon.is_some(),"s":segs}),
    }
}

fn bounds(b: &Punctuated<TypeParamBound, Token![+]>) -> Value {
    Value::Array(
        b.iter()
            .filter_map(|x| match x {
                TypeParamBound::Trait(t) => Some(path(&None, &t.path)),
                _ => None,
            })
            .collect(),
    )
}

fn ty(t: &Type) -> Value {
    match t {
        Type::Path(p) => json!({"k":"path","p":path(&p.qself,&p.path)}),
        Type::Reference(r) => json!({"k":"ref","m":r.mutability.is_some(),"t":ty(&r.elem)}),
        Type::Ptr(r) => json!({"k":"ptr","m":r.mutability.is_some(),"t":ty(&r.elem)}),
        Type::Slice(s) => json!({"k":"slice","t":ty(&s.elem)}),
        Type::Array(a) => json!({"k":"array","t":ty(&a.elem),"n":expr(&a.len)}),
        Type::Tuple(t) => json!({"k":"tuple","t":t.elems.iter().map(ty).collect::<Vec<_>>()}),
        Type::ImplTrait(i) => json!({"k":"impl","b":bounds(&i.bounds)}),
        Type::TraitObject(i) => json!({"k":"dyn","b":bounds(&i.bounds)}),
        Type::Paren(p) => ty(&p.elem),
        Type::Group(p) => ty(&p.elem),
        Type::Infer(_) => json!({"k":"infer"}),
        Type::Never(_) => json!({"k":"never"}),
        Type::BareFn(f) => json!({"k":"fn","in":f.inputs.iter().map(|a|ty(&a.ty)).collect::<Vec<_>>(),
            "out": match &f.output { ReturnType::Default=>Value::Null, ReturnType::Type(_,t)=>ty(t)}}),
        o => json!({"k":"other","s":ts(o)}),
    }
}

fn lit(l: &Lit) -> Value {
    match l {
        Lit::Int(i) => json!({"k":"int","v":i.base10_digits(),"s":i.suffix()}),
        Lit::Bool(b) => json!({"k":"bool","v":b.value}),
        Lit::Str(s) => json!({"k":"str","v":s.value()}),
        Lit::ByteStr(s) => json!({"k":"bstr","v":s.value()}),
        Lit::Byte(s) => json!({"k":"byte","v":s.value()}),
        Lit::Char(s) => json!({"k":"char","v":s.value().to_string()}),
        Lit::Float(s) => json!({"k":"float","v":s.base10_digits(),"s":s.suffix()}),
        o => json!({"k":"other","s":ts(o)}),
    }
}

fn pat(p: &Pat) -> Value {
    match p {
        Pat::Ident(i) => json!({"k":"id","n":i.ident.to_string(),"r":i.by_ref.is_some(),"m":i.mutability.is_some(),
            "sub": i.subpat.as_ref().map(|(_,s)|pat(s))}),
        Pat::Wild(_) => json!({"k":"_"}),
        Pat::Rest(_) => json!({"k":".."}),
        Pat::Lit(l) => json!({"k":"lit","v":lit(&l.lit)}),
        Pat::Path(p) => json!({"k":"path","p":path(&p.qself,&p.path)}),
        Pat::Tuple(t) => json!({"k":"tuple","e":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::TupleStruct(t) => json!({"k":"ts","p":path(&t.qself,&t.path),"e":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Struct(s) => json!({"k":"struct","p":path(&s.qself,&s.path),"rest":s.rest.is_some(),
            "f":s.fields.iter().map(|f|json!([ts(&f.member),pat(&f.pat)])).collect::<Vec<_>>()}),
        Pat::Reference(r) => json!({"k":"ref","p":pat(&r.pat)}),
        Pat::Paren(p) => pat(&p.pat),
        Pat::Or(o) => json!({"k":"or","e":o.cases.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Slice(s) => json!({"k":"slice","e":s.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Range(r) => json!({"k":"range","lo":r.start.as_ref().map(|e|expr(e)),"hi":r.end.as_ref().map(|e|expr(e)),
            "incl":matches!(r.limits,RangeLimits::Closed(_))}),
        Pat::Type(t) => json!({"k":"typed","p":pat(&t.pat),"t":ty(&t.ty)}),
        Pat::Const(c) => json!({"k":"other","s":ts(c)}),
        o => json!({"k":"other","s":ts(o)}),
    }
}

fn mac(m: &Macro, l: usize) -> Value {
    let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
    let toks = m.tokens.clone();
    // vec![x; n]
    let rep = |i: syn::parse::ParseStream| -> Result<(Expr, Expr)> {
        let a: Expr = i.parse()?;
        i.parse::<Token![;]>()?;
        let b: Expr = i.parse()?;
        if !i.is_empty() { return Err(i.error("trailing")); }
        Ok((a, b))
    };
    if name == "vec" {
        if let Ok((a, b)) = rep.parse2(toks.clone()) {
            return json!({"k":"mac","n":name,"l":l,"rep":[expr(&a),expr(&b)]});
        }
    }
    if name == "matches" {
        let f = |i: syn::parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
            let a: Expr = i.parse()?;
            i.parse::<Token![,]>()?;
            let p = Pat::parse_multi_with_leading_vert(i)?;
            let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse::<Expr>()?) } else { None };
            let _ = i.parse::<Option<Token![,]>>()?;
            Ok((a, p, g))
        };
        if let Ok((a, p, g)) = f.parse2(toks.clone()) {
            return json!({"k":"mac","n":name,"l":l,"e":expr(&a),"p":pat(&p),"g":g.map(|g|expr(&g))});
        }
    }
    let p = Punctuated::<Expr, Token![,]>::parse_terminated;
    if let Ok(es) = p.parse2(toks.clone()) {
        return json!({"k":"mac","n":name,"l":l,"a":es.iter().map(expr).collect::<Vec<_>>(),"s":toks.to_string()});
    }
    json!({"k":"mac","n":name,"l":l,"s":toks.to_string()})
}

fn block(b: &Block) -> Value {
    Value::Array(b.stmts.iter().map(stmt).collect())
}

fn stmt(s: &Stmt) -> Value {
    match s {
        Stmt::Local(l) => {
            let (init, els) = match &l.init {
                Some(i) => (Some(expr(&i.expr)), i.diverge.as_ref().map(|(_, e)| expr(e))),
                None => (None, None),
            };
            json!({"k":"let","p":pat(&l.pat),"e":init,"else":els,"l":sp(l),"at":attrs(&l.attrs)})
        }
        Stmt::Item(i) => json!({"k":"item","i":item(i)}),
        Stmt::Expr(e, semi) => json!({"k":"expr","e":expr(e),"semi":semi.is_some()}),
        Stmt::Macro(m) => json!({"k":"expr","e":mac(&m.mac, sp(m)),"semi":m.semi_token.is_some(),"at":attrs(&m.attrs)}),
    }
}

fn expr_attrs(e: &Expr) -> Option<&Vec<Attribute>> {
    Some(match e {
        Expr::Block(x) => &x.attrs,
        Expr::If(x) => &x.attrs,
        Expr::Call(x) => &x.attrs,
        Expr::MethodCall(x) => &x.attrs,
        Expr::Assign(x) => &x.attrs,
        Expr::Match(x) => &x.attrs,
        Expr::ForLoop(x) => &x.attrs,
        Expr::Binary(x) => &x.attrs,
        _ => return None,
    })
}

fn expr(e: &Expr) -> Value {
    let mut v = expr0(e);
    if let Some(a) = expr_attrs(e) {
        if !a.is_empty() {
            v["at"] = attrs(a);
        }
    }
    v
}

fn expr0(e: &Expr) -> Value {
    let l = sp(e);
    match e {
        Expr::Lit(x) => json!({"k":"lit","v":lit(&x.lit),"l":l}),
        Expr::Path(x) => json!({"k":"path","p":path(&x.qself,&x.path),"l":l}),
        Expr::Paren(x) => expr(&x.expr),
        Expr::Group(x) => expr(&x.expr),
        Expr::Unary(x) => json!({"k":"un","op":ts(&x.op),"e":expr(&x.expr),"l":l}),
        Expr::Binary(x) => json!({"k":"bin","op":ts(&x.op),"a":expr(&x.left),"b":expr(&x.right),"l":l}),
        Expr::Assign(x) => json!({"k":"assign","a":expr(&x.left),"b":expr(&x.right),"l":l}),
        Expr::Call(x) => json!({"k":"call","f":expr(&x.func),"a":x.args.iter().map(expr).collect::<Vec<_>>(),"l":l}),
        Expr::MethodCall(x) => json!({"k":"mcall","r":expr(&x.receiver),"m":x.method.to_string(),
            "t":x.turbofish.as_ref().map(|t|t.args.iter().map(|g| match g { GenericArgument::Type(t)=>ty(t), o=>json!({"k":"other","s":ts(o)})}).collect::<Vec<_>>()),
            "a":x.args.iter().map(expr).collect::<Vec<_>>(),"l":line(x.method.span())}),
        Expr::Field(x) => json!({"k":"field","e":expr(&x.base),"n":ts(&x.member),"l":l}),
        Expr::Index(x) => json!({"k":"index","e":expr(&x.expr),"i":expr(&x.index),"l":l}),
        Expr::Range(x) => json!({"k":"range","lo":x.start.as_ref().map(|e|expr(e)),"hi":x.end.as_ref().map(|e|expr(e)),
            "incl":matches!(x.limits,RangeLimits::Closed(_)),"l":l}),
        Expr::Reference(x) => json!({"k":"ref","m":x.mutability.is_some(),"e":expr(&x.expr),"l":l}),
        Expr::RawAddr(x) => json!({"k":"ref","m":true,"e":expr(&x.expr),"l":l}),
        Expr::Cast(x) => json!({"k":"cast","e":expr(&x.expr),"t":ty(&x.ty),"l":l}),
        Expr::Tuple(x) => json!({"k":"tuple","e":x.elems.iter().map(expr).collect::<Vec<_>>(),"l":l}),
        Expr::Array(x) => json!({"k":"array","e":x.elems.iter().map(expr).collect::<Vec<_>>(),"l":l}),
        Expr::Repeat(x) => json!({"k":"repeat","e":expr(&x.expr),"n":expr(&x.len),"l":l}),
        Expr::Struct(x) => json!({"k":"struct","p":path(&x.qself,&x.path),
            "f":x.fields.iter().map(|f|json!([ts(&f.member),expr(&f.expr)])).collect::<Vec<_>>(),
            "rest":x.rest.as_ref().map(|r|expr(r)),"l":l}),
        Expr::Block(x) => json!({"k":"block","b":block(&x.block),"lab":x.label.as_ref().map(|l|l.name.ident.to_string()),"l":l}),
        Expr::Unsafe(x) => json!({"k":"block","b":block(&x.block),"unsafe":true,"l":l}),
        Expr::If(x) => json!({"k":"if","c":expr(&x.cond),"t":block(&x.then_branch),
            "e":x.else_branch.as_ref().map(|(_,e)|expr(e)),"l":l}),
        Expr::Let(x) => json!({"k":"letc","p":pat(&x.pat),"e":expr(&x.expr),"l":l}),
        Expr::Match(x) => json!({"k":"match","e":expr(&x.expr),"l":l,"arms":x.arms.iter().map(|a|json!({
            "p":pat(&a.pat),"g":a.guard.as_ref().map(|(_,g)|expr(g)),"b":expr(&a.body),"at":attrs(&a.attrs)})).collect::<Vec<_>>()}),
        Expr::While(x) => json!({"k":"while","c":expr(&x.cond),"b":block(&x.body),"lab":x.label.as_ref().map(|l|l.name.ident.to_string()),"l":l}),
        Expr::Loop(x) => json!({"k":"loop","b":block(&x.body),"lab":x.label.as_ref().map(|l|l.name.ident.to_string()),"l":l}),
        Expr::ForLoop(x) => json!({"k":"for","p":pat(&x.pat),"e":expr(&x.expr),"b":block(&x.body),"lab":x.label.as_ref().map(|l|l.name.ident.to_string()),"l":l}),
        Expr::Break(x) => json!({"k":"break","lab":x.label.as_ref().map(|l|l.ident.to_string()),"e":x.expr.as_ref().map(|e|expr(e)),"l":l}),
        Expr::Continue(x) => json!({"k":"continue","lab":x.label.as_ref().map(|l|l.ident.to_string()),"l":l}),
        Expr::Return(x) => json!({"k":"return","e":x.expr.as_ref().map(|e|expr(e)),"l":l}),
        Expr::Try(x) => json!({"k":"try","e":expr(&x.expr),"l":l}),
        Expr::Closure(x) => json!({"k":"closure","move":x.capture.is_some(),"p":x.inputs.iter().map(pat).collect::<Vec<_>>(),
            "ret":match &x.output { ReturnType::Default=>Value::Null, ReturnType::Type(_,t)=>ty(t)},"b":expr(&x.body),"l":l}),
        Expr::Macro(x) => mac(&x.mac, l),
        Expr::Const(x) => json!({"k":"block","b":block(&x.block),"l":l}),
        o => json!({"k":"other","s":ts(o),"l":l}),
    }
}

fn generics(g: &Generics) -> Value {
    let ps: Vec<Value> = g
        .params
        .iter()
        .filter_map(|p| match p {
            GenericParam::Type(t) => Some(json!({"n":t.ident.to_string(),"b":bounds(&t.bounds)})),
            GenericParam::Const(c) => Some(json!({"n":c.ident.to_string(),"const":ty(&c.ty)})),
            _ => None,
        })
        .collect();
    let wh: Vec<Value> = match &g.where_clause {
        None => vec![],
        Some(w) => w
            .predicates
            .iter()
            .filter_map(|p| match p {
                WherePredicate::Type(t) => Some(json!({"t":ty(&t.bounded_ty),"b":bounds(&t.bounds)})),
                _ => None,
            })
            .collect(),
    };
    json!({"p":ps,"w":wh})
}

fn sig(s: &Signature, a: &[Attribute]) -> Value {
    let ins: Vec<Value> = s
        .inputs
        .iter()
        .map(|i| match i {
            FnArg::Receiver(r) => json!({"self":true,"ref":r.reference.is_some(),"m":r.mutability.is_some(),"at":attrs(&r.attrs)}),
            FnArg::Typed(t) => json!({"p":pat(&t.pat),"t":ty(&t.ty)}),
        })
        .collect();
    json!({"n":s.ident.to_string(),"in":ins,"out":match &s.output { ReturnType::Default=>Value::Null, ReturnType::Type(_,t)=>ty(t)},
        "g":generics(&s.generics),"abi":s.abi.as_ref().map(|a|ts(a)),"unsafe":s.unsafety.is_some(),"l":line(s.ident.span()),"at":attrs(a)})
}

fn fields(f: &Fields) -> Value {
    match f {
        Fields::Named(n) => json!({"k":"named","f":n.named.iter().map(|f|json!({"n":f.ident.as_ref().unwrap().to_string(),"t":ty(&f.ty),"v":vis(&f.vis),"at":attrs(&f.attrs)})).collect::<Vec<_>>()}),
        Fields::Unnamed(n) => json!({"k":"tuple","f":n.unnamed.iter().enumerate().map(|(i,f)|json!({"n":i.to_string(),"t":ty(&f.ty),"v":vis(&f.vis),"at":attrs(&f.attrs)})).collect::<Vec<_>>()}),
        Fields::Unit => json!({"k":"unit","f":[]}),
    }
}

fn usetree(t: &UseTree, pre: &mut Vec<String>, out: &mut Vec<Value>) {
    match t {
        UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            usetree(&p.tree, pre, out);
            pre.pop();
        }
        UseTree::Name(n) => {
            let mut f = pre.clone();
            let id = n.ident.to_string();
            if id == "self" {
                let last = f.last().cloned().unwrap_or_default();
                out.push(json!({"p":f,"as":last}));
            } else {
                f.push(id.clone());
                out.push(json!({"p":f,"as":id}));
            }
        }
        UseTree::Rename(n) => {
            let mut f = pre.clone();
            if n.ident != "self" {
                f.push(n.ident.to_string());
            }
            out.push(json!({"p":f,"as":n.rename.to_string()}));
        }
        UseTree::Glob(_) => out.push(json!({"p":pre.clone(),"as":"*"})),
        UseTree::Group(g) => {
            for t in &g.items {
                usetree(t, pre, out);
            }
        }
    }
}

fn item(i: &Item) -> Value {
    match i {
        Item::Fn(f) => json!({"k":"fn","sig":sig(&f.sig,&f.attrs),"b":block(&f.block),"v":vis(&f.vis),"at":attrs(&f.attrs)}),
        Item::Const(c) => json!({"k":"const","n":c.ident.to_string(),"t":ty(&c.ty),"e":expr(&c.expr),"v":vis(&c.vis),"at":attrs(&c.attrs),"l":sp(c)}),
        Item::Static(c) => json!({"k":"static","m":matches!(c.mutability, syn::StaticMutability::Mut(_)),"n":c.ident.to_string(),"t":ty(&c.ty),"e":expr(&c.expr),"v":vis(&c.vis),"at":attrs(&c.attrs),"l":sp(c)}),
        Item::Struct(s) => json!({"k":"struct","n":s.ident.to_string(),"g":generics(&s.generics),"f":fields(&s.fields),"v":vis(&s.vis),"at":attrs(&s.attrs),"l":sp(s)}),
        Item::Enum(s) => json!({"k":"enum","n":s.ident.to_string(),"g":generics(&s.generics),"v":vis(&s.vis),"at":attrs(&s.attrs),
            "vs":s.variants.iter().map(|v|json!({"n":v.ident.to_string(),"f":fields(&v.fields),"d":v.discriminant.as_ref().map(|(_,e)|expr(e)),"at":attrs(&v.attrs)})).collect::<Vec<_>>(),"l":sp(s)}),
        Item::Type(t) => json!({"k":"type","n":t.ident.to_string(),"g":generics(&t.generics),"t":ty(&t.ty),"v":vis(&t.vis),"at":attrs(&t.attrs)}),
        Item::Use(u) => {
            let mut out = vec![];
            usetree(&u.tree, &mut vec![], &mut out);
            json!({"k":"use","u":out,"v":vis(&u.vis),"at":attrs(&u.attrs)})
        }
        Item::Mod(m) => json!({"k":"mod","n":m.ident.to_string(),"v":vis(&m.vis),"at":attrs(&m.attrs),
            "c":m.content.as_ref().map(|(_,c)|c.iter().map(item).collect::<Vec<_>>())}),
        Item::Trait(t) => json!({"k":"trait","n":t.ident.to_string(),"g":generics(&t.generics),"v":vis(&t.vis),"at":attrs(&t.attrs),
            "i":t.items.iter().map(|x| match x {
                TraitItem::Fn(f)=>json!({"k":"fn","sig":sig(&f.sig,&f.attrs),"b":f.default.as_ref().map(block),"at":attrs(&f.attrs)}),
                TraitItem::Const(c)=>json!({"k":"const","n":c.ident.to_string(),"t":ty(&c.ty),"e":c.default.as_ref().map(|(_,e)|expr(e)),"at":attrs(&c.attrs)}),
                TraitItem::Type(t)=>json!({"k":"type","n":t.ident.to_string(),"at":attrs(&t.attrs)}),
                o=>json!({"k":"other","s":ts(o)})}).collect::<Vec<_>>()}),
        Item::Impl(im) => json!({"k":"impl","g":generics(&im.generics),"t":ty(&im.self_ty),"at":attrs(&im.attrs),
            "neg": im.trait_.as_ref().map(|(n,_,_)| n.is_some()).unwrap_or(false),
            "tr":im.trait_.as_ref().map(|(_,p,_)|path(&None,p)),"l":sp(im),
            "i":im.items.iter().map(|x| match x {
                ImplItem::Fn(f)=>json!({"k":"fn","sig":sig(&f.sig,&f.attrs),"b":block(&f.block),"v":vis(&f.vis),"at":attrs(&f.attrs)}),
                ImplItem::Const(c)=>json!({"k":"const","n":c.ident.to_string(),"t":ty(&c.ty),"e":expr(&c.expr),"at":attrs(&c.attrs)}),
                ImplItem::Type(t)=>json!({"k":"type","n":t.ident.to_string(),"t":ty(&t.ty),"at":attrs(&t.attrs)}),
                o=>json!({"k":"other","s":ts(o)})}).collect::<Vec<_>>()}),
        Item::Macro(m) => json!({"k":"macro","n":m.ident.as_ref().map(|i|i.to_string()),"m":mac(&m.mac,sp(m)),"at":attrs(&m.attrs)}),
        o => json!({"k":"other","s":ts(o)}),
    }
}

fn main() {
    let mut out = serde_json::Map::new();
    for f in std::env::args().skip(1) {
        let src = match std::fs::read_to_string(&f) {
            Ok(s) => s,
            Err(e) => { out.insert(f, json!({"err":e.to_string()})); continue; }
        };
        match syn::parse_file(&src) {
            Ok(x) => { out.insert(f, json!({"items":x.items.iter().map(item).collect::<Vec<_>>(),"at":attrs(&x.attrs)})); }
            Err(e) => { out.insert(f, json!({"err":e.to_string()})); }
        }
    }
    println!("{}", serde_json::to_string(&Value::Object(out)).unwrap());
}
