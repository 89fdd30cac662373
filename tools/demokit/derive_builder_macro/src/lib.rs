use proc_macro::TokenStream;
use proc_macro2::TokenStream as TS;
use quote::{format_ident, quote};
use syn::{meta::ParseNestedMeta, parse_macro_input, Data, DeriveInput, Expr, Fields, Ident, LitStr, Path, Type};

#[derive(Clone, Default)]
struct Setter {
    into: bool,
    strip: bool,
    custom: bool,
    prefix: Option<String>,
    name: Option<String>,
}
#[derive(Default)]
struct FieldOpts {
    setter: Setter,
    default: Option<Option<TS>>,
}

fn str_or_expr(m: &ParseNestedMeta) -> syn::Result<TS> {
    let e: Expr = m.value()?.parse()?;
    if let Expr::Lit(l) = &e {
        if let syn::Lit::Str(s) = &l.lit {
            let inner: TS = s.parse::<TS>()?;
            return Ok(quote!({ #inner }));
        }
    }
    Ok(quote!({ #e }))
}
fn str_or_path(m: &ParseNestedMeta) -> syn::Result<Path> {
    let v = m.value()?;
    if v.peek(LitStr) {
        let s: LitStr = v.parse()?;
        s.parse()
    } else {
        v.parse()
    }
}
fn flag(m: &ParseNestedMeta) -> syn::Result<bool> {
    if m.input.peek(syn::Token![=]) {
        let b: syn::LitBool = m.value()?.parse()?;
        Ok(b.value)
    } else {
        Ok(true)
    }
}
fn parse_setter(m: &ParseNestedMeta, s: &mut Setter) -> syn::Result<()> {
    m.parse_nested_meta(|n| {
        if n.path.is_ident("into") {
            s.into = flag(&n)?;
        } else if n.path.is_ident("strip_option") {
            s.strip = flag(&n)?;
        } else if n.path.is_ident("custom") || n.path.is_ident("skip") {
            s.custom = flag(&n)?;
        } else if n.path.is_ident("prefix") {
            s.prefix = Some(n.value()?.parse::<LitStr>()?.value());
        } else if n.path.is_ident("name") {
            s.name = Some(n.value()?.parse::<LitStr>()?.value());
        } else {
            return Err(n.error("derive_builder stand-in: unsupported setter option"));
        }
        Ok(())
    })
}
fn option_inner(t: &Type) -> Option<&Type> {
    if let Type::Path(p) = t {
        let seg = p.path.segments.last()?;
        if seg.ident == "Option" {
            if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
                if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                    return Some(t);
                }
            }
        }
    }
    None
}

#[proc_macro_derive(Builder, attributes(builder, builder_field_attr, builder_struct_attr, builder_setter_attr))]
pub fn derive(input: TokenStream) -> TokenStream {
    let di = parse_macro_input!(input as DeriveInput);
    match go(di) {
        Ok(t) => t.into(),
        Err(e) => e.to_compile_error().into(),
    }
}

fn go(di: DeriveInput) -> syn::Result<TS> {
    let name = &di.ident;
    let vis = &di.vis;
    let mut pattern = "mutable".to_string();
    let mut derives: Vec<Path> = vec![];
    let mut validate: Option<Path> = None;
    let mut build_name: Ident = format_ident!("build");
    let mut skip_build = false;
    let mut err_ty: Option<Path> = None;
    let mut bname: Ident = format_ident!("{}Builder", name);
    let mut g_setter = Setter::default();
    let mut g_default: Option<Option<TS>> = None;
    for a in di.attrs.iter().filter(|a| a.path().is_ident("builder")) {
        a.parse_nested_meta(|m| {
            if m.path.is_ident("pattern") {
                pattern = m.value()?.parse::<LitStr>()?.value();
            } else if m.path.is_ident("derive") {
                m.parse_nested_meta(|n| {
                    derives.push(n.path.clone());
                    Ok(())
                })?;
            } else if m.path.is_ident("name") {
                bname = format_ident!("{}", m.value()?.parse::<LitStr>()?.value());
            } else if m.path.is_ident("setter") {
                parse_setter(&m, &mut g_setter)?;
            } else if m.path.is_ident("default") {
                g_default = Some(if m.input.peek(syn::Token![=]) { Some(str_or_expr(&m)?) } else { None });
            } else if m.path.is_ident("public") || m.path.is_ident("private") {
            } else if m.path.is_ident("build_fn") {
                m.parse_nested_meta(|n| {
                    if n.path.is_ident("validate") {
                        validate = Some(str_or_path(&n)?);
                    } else if n.path.is_ident("name") {
                        build_name = format_ident!("{}", n.value()?.parse::<LitStr>()?.value());
                    } else if n.path.is_ident("skip") {
                        skip_build = flag(&n)?;
                    } else if n.path.is_ident("error") {
                        err_ty = Some(str_or_path(&n)?);
                    } else if n.path.is_ident("public") || n.path.is_ident("private") {
                    } else {
                        return Err(n.error("derive_builder stand-in: unsupported build_fn option"));
                    }
                    Ok(())
                })?;
            } else {
                return Err(m.error("derive_builder stand-in: unsupported option"));
            }
            Ok(())
        })?;
    }
    let Data::Struct(ds) = &di.data else {
        return Err(syn::Error::new_spanned(name, "struct expected"));
    };
    let Fields::Named(fields) = &ds.fields else {
        return Err(syn::Error::new_spanned(name, "named fields expected"));
    };
    let owned = pattern == "owned";
    let immutable = pattern == "immutable";
    let err_name = format_ident!("{}Error", bname);
    let (ig, tg, wc) = di.generics.split_for_impl();

    let mut decl = vec![];
    let mut defaults = vec![];
    let mut setters = vec![];
    let mut builds = vec![];
    for f in &fields.named {
        let id = f.ident.as_ref().unwrap();
        let ty = &f.ty;
        let mut o = FieldOpts { setter: g_setter.clone(), default: None };
        for a in f.attrs.iter().filter(|a| a.path().is_ident("builder")) {
            a.parse_nested_meta(|m| {
                if m.path.is_ident("default") {
                    o.default = Some(if m.input.peek(syn::Token![=]) { Some(str_or_expr(&m)?) } else { None });
                } else if m.path.is_ident("setter") {
                    parse_setter(&m, &mut o.setter)?;
                } else if m.path.is_ident("private") || m.path.is_ident("public") {
                } else {
                    return Err(m.error("derive_builder stand-in: unsupported field option"));
                }
                Ok(())
            })?;
        }
        decl.push(quote!(#id: ::std::option::Option<#ty>));
        defaults.push(quote!(#id: ::std::option::Option::None));
        if !o.setter.custom {
            let sn = match (&o.setter.name, &o.setter.prefix) {
                (Some(n), _) => format_ident!("{}", n),
                (None, Some(p)) => format_ident!("{}_{}", p, id),
                _ => id.clone(),
            };
            let (aty, wrap) = match (o.setter.strip, option_inner(ty)) {
                (true, Some(inner)) => (quote!(#inner), true),
                _ => (quote!(#ty), false),
            };
            let (gen, arg, val) = if o.setter.into {
                (quote!(<BuilderValue: ::std::convert::Into<#aty>>), quote!(value: BuilderValue), quote!(value.into()))
            } else {
                (quote!(), quote!(value: #aty), quote!(value))
            };
            let val = if wrap { quote!(::std::option::Option::Some(#val)) } else { val };
            setters.push(if owned {
                quote!(#[allow(unused_mut)] pub fn #sn #gen (self, #arg) -> Self { let mut new = self; new.#id = ::std::option::Option::Some(#val); new })
            } else if immutable {
                quote!(#[allow(unused_mut)] pub fn #sn #gen (&self, #arg) -> Self { let mut new = ::std::clone::Clone::clone(self); new.#id = ::std::option::Option::Some(#val); new })
            } else {
                quote!(pub fn #sn #gen (&mut self, #arg) -> &mut Self { self.#id = ::std::option::Option::Some(#val); self })
            });
        }
        let fallback = match &o.default {
            Some(Some(e)) => quote!(#e),
            Some(None) => quote!(::std::default::Default::default()),
            None => match &g_default {
                Some(None) => quote!({ let d: #name #tg = ::std::default::Default::default(); d.#id }),
                Some(Some(e)) => quote!({ let d: #name #tg = #e; d.#id }),
                None => {
                    let n = id.to_string();
                    quote!(return ::std::result::Result::Err(::std::convert::Into::into(::derive_builder::UninitializedFieldError::new(#n))))
                }
            },
        };
        let some = if owned { quote!(self.#id) } else { quote!(::std::clone::Clone::clone(&self.#id)) };
        builds.push(quote!(#id: match #some { ::std::option::Option::Some(v) => v, ::std::option::Option::None => #fallback }));
    }
    let clone = if owned { quote!() } else { quote!(#[derive(Clone)]) };
    let validate_call = validate.map(|v| quote!(#v(&self)?;)).unwrap_or_default();
    let self_ = if owned { quote!(self) } else { quote!(&self) };
    let ret_err = err_ty.as_ref().map(|e| quote!(#e)).unwrap_or(quote!(#err_name));
    let build = if skip_build {
        quote!()
    } else {
        quote!(
            pub fn #build_name(#self_) -> ::std::result::Result<#name #tg, #ret_err> {
                #validate_call
                Ok(#name { #(#builds),* })
            }
        )
    };
    let err = if err_ty.is_some() || skip_build {
        quote!()
    } else {
        quote!(
            #[derive(Debug)]
            #[non_exhaustive]
            #vis enum #err_name {
                UninitializedField(&'static str),
                ValidationError(::std::string::String),
            }
            impl ::std::convert::From<::derive_builder::UninitializedFieldError> for #err_name {
                fn from(s: ::derive_builder::UninitializedFieldError) -> Self { Self::UninitializedField(s.field_name()) }
            }
            impl ::std::convert::From<::std::string::String> for #err_name {
                fn from(s: ::std::string::String) -> Self { Self::ValidationError(s) }
            }
            impl ::std::fmt::Display for #err_name {
                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                    match self {
                        Self::UninitializedField(n) => write!(f, "`{}` must be initialized", n),
                        Self::ValidationError(e) => write!(f, "{}", e),
                    }
                }
            }
            impl ::std::error::Error for #err_name {}
        )
    };
    let derives = if derives.is_empty() { quote!() } else { quote!(#[derive(#(#derives),*)]) };
    Ok(quote!(
        #derives
        #clone
        #[allow(dead_code)]
        #vis struct #bname #ig #wc { #(#decl),* }
        #[allow(dead_code, clippy::all)]
        impl #ig #bname #tg #wc {
            #(#setters)*
            #build
        }
        impl #ig ::std::default::Default for #bname #tg #wc {
            fn default() -> Self { Self { #(#defaults),* } }
        }
        #err
    ))
}
