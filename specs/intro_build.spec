// Building a description: in any order (C20)
subst impl Into<String> => VxStr
source core/src/introspection/ir/field.rs
only =FieldIrBuilder FieldIrBuilder::new FieldIrBuilder::doc FieldIrBuilder::finish FieldIr::builder
fn FieldIrBuilder::new
    ensures r.id == id, r.name == name, r.doc is None, r.is_required == is_required, r.field_type == field_type, //@C20
fn FieldIrBuilder::doc
    ensures r.id == self.id, r.name == self.name, r.doc == Some(doc), r.is_required == self.is_required, r.field_type == self.field_type, //@C20
fn FieldIrBuilder::finish
    ensures r.id == self.id, r.name == self.name, r.doc == self.doc, r.is_required == self.is_required, r.field_type == self.field_type, //@C20
fn FieldIr::builder
    ensures r.id == id, r.name == name, r.doc is None, r.is_required == is_required, r.field_type == field_type, //@C20
source core/src/introspection/ir/variant.rs
only =VariantIrBuilder VariantIrBuilder::new VariantIrBuilder::doc VariantIrBuilder::variant_type VariantIrBuilder::finish VariantIr::builder
fn VariantIrBuilder::new
    ensures r.id == id, r.name == name, r.doc is None, r.variant_type is None, //@C20
fn VariantIrBuilder::doc
    ensures r.id == self.id, r.name == self.name, r.doc == Some(doc), r.variant_type == self.variant_type, //@C20
fn VariantIrBuilder::variant_type
    ensures r.id == self.id, r.name == self.name, r.doc == self.doc, r.variant_type == Some(variant_type), //@C20
fn VariantIrBuilder::finish
    ensures r.id == self.id, r.name == self.name, r.doc == self.doc, r.variant_type == self.variant_type, //@C20
fn VariantIr::builder
    ensures r.id == id, r.name == name, r.doc is None, r.variant_type is None, //@C20
source core/src/introspection/ir/function.rs
only =FunctionIrBuilder FunctionIrBuilder::new FunctionIrBuilder::doc FunctionIrBuilder::args FunctionIrBuilder::ok FunctionIrBuilder::err FunctionIrBuilder::finish FunctionIr::builder
fn FunctionIrBuilder::new
    ensures r.id == id, r.name == name, r.doc is None, r.args is None, r.ok is None, r.err is None, //@C20
fn FunctionIrBuilder::doc
    ensures r.id == self.id, r.name == self.name, r.doc == Some(doc), r.args == self.args, r.ok == self.ok, r.err == self.err, //@C20
fn FunctionIrBuilder::args
    ensures r.id == self.id, r.name == self.name, r.doc == self.doc, r.args == Some(args), r.ok == self.ok, r.err == self.err, //@C20
fn FunctionIrBuilder::ok
    ensures r.id == self.id, r.name == self.name, r.doc == self.doc, r.args == self.args, r.ok == Some(ok), r.err == self.err, //@C20
fn FunctionIrBuilder::err
    ensures r.id == self.id, r.name == self.name, r.doc == self.doc, r.args == self.args, r.ok == self.ok, r.err == Some(err), //@C20
fn FunctionIrBuilder::finish
    ensures r.id == self.id, r.name == self.name, r.doc == self.doc, r.args == self.args, r.ok == self.ok, r.err == self.err, //@C20
fn FunctionIr::builder
    ensures r.id == id, r.name == name, r.doc is None, r.args is None, r.ok is None, r.err is None, //@C20
source core/src/introspection/ir/event.rs
only =EventIrBuilder EventIrBuilder::new EventIrBuilder::doc EventIrBuilder::event_type EventIrBuilder::finish EventIr::builder
fn EventIrBuilder::new
    ensures r.id == id, r.name == name, r.doc is None, r.event_type is None, //@C20
fn EventIrBuilder::doc
    ensures r.id == self.id, r.name == self.name, r.doc == Some(doc), r.event_type == self.event_type, //@C20
fn EventIrBuilder::event_type
    ensures r.id == self.id, r.name == self.name, r.doc == self.doc, r.event_type == Some(event_type), //@C20
fn EventIrBuilder::finish
    ensures r.id == self.id, r.name == self.name, r.doc == self.doc, r.event_type == self.event_type, //@C20
fn EventIr::builder
    ensures r.id == id, r.name == name, r.doc is None, r.event_type is None, //@C20
source core/src/introspection/ir/struct_fallback.rs
only =StructFallbackIrBuilder StructFallbackIrBuilder::new StructFallbackIrBuilder::doc StructFallbackIrBuilder::finish StructFallbackIr::builder
fn StructFallbackIrBuilder::new
    ensures r.name == name, r.doc is None, //@C20
fn StructFallbackIrBuilder::doc
    ensures r.name == self.name, r.doc == Some(doc), //@C20
fn StructFallbackIrBuilder::finish
    ensures r.name == self.name, r.doc == self.doc, //@C20
fn StructFallbackIr::builder
    ensures r.name == name, r.doc is None, //@C20
source core/src/introspection/ir/enum_fallback.rs
only =EnumFallbackIrBuilder EnumFallbackIrBuilder::new EnumFallbackIrBuilder::doc EnumFallbackIrBuilder::finish EnumFallbackIr::builder
fn EnumFallbackIrBuilder::new
    ensures r.name == name, r.doc is None, //@C20
fn EnumFallbackIrBuilder::doc
    ensures r.name == self.name, r.doc == Some(doc), //@C20
fn EnumFallbackIrBuilder::finish
    ensures r.name == self.name, r.doc == self.doc, //@C20
fn EnumFallbackIr::builder
    ensures r.name == name, r.doc is None, //@C20
source core/src/introspection/ir/function_fallback.rs
only =FunctionFallbackIrBuilder FunctionFallbackIrBuilder::new FunctionFallbackIrBuilder::doc FunctionFallbackIrBuilder::finish FunctionFallbackIr::builder
fn FunctionFallbackIrBuilder::new
    ensures r.name == name, r.doc is None, //@C20
fn FunctionFallbackIrBuilder::doc
    ensures r.name == self.name, r.doc == Some(doc), //@C20
fn FunctionFallbackIrBuilder::finish
    ensures r.name == self.name, r.doc == self.doc, //@C20
fn FunctionFallbackIr::builder
    ensures r.name == name, r.doc is None, //@C20
source core/src/introspection/ir/event_fallback.rs
only =EventFallbackIrBuilder EventFallbackIrBuilder::new EventFallbackIrBuilder::doc EventFallbackIrBuilder::finish EventFallbackIr::builder
fn EventFallbackIrBuilder::new
    ensures r.name == name, r.doc is None, //@C20
fn EventFallbackIrBuilder::doc
    ensures r.name == self.name, r.doc == Some(doc), //@C20
fn EventFallbackIrBuilder::finish
    ensures r.name == self.name, r.doc == self.doc, //@C20
fn EventFallbackIr::builder
    ensures r.name == name, r.doc is None, //@C20
source core/src/introspection/ir/struct_ty.rs
only =StructIrBuilder StructIrBuilder::new StructIrBuilder::doc StructIrBuilder::field StructIrBuilder::fallback StructIrBuilder::finish StructIr::builder
fn StructIrBuilder::new
    ensures r.schema == schema, r.name == name, r.doc is None, r.fields@ == Map::empty(), r.fallback is None, //@C20
fn StructIrBuilder::doc
    ensures r.schema == self.schema, r.name == self.name, r.doc == Some(doc), r.fields == self.fields, r.fallback == self.fallback, //@C20
fn StructIrBuilder::field
    ensures r.schema == self.schema, r.name == self.name, r.doc == self.doc, r.fields@ == self.fields@.insert(field.id, field), r.fallback == self.fallback, //@C20
fn StructIrBuilder::fallback
    ensures r.schema == self.schema, r.name == self.name, r.doc == self.doc, r.fields == self.fields, r.fallback == Some(fallback), //@C20
fn StructIrBuilder::finish
    ensures r.schema == self.schema, r.name == self.name, r.doc == self.doc, r.fields == self.fields, r.fallback == self.fallback, //@C20
fn StructIr::builder
    ensures r.schema == schema, r.name == name, r.doc is None, r.fields@ == Map::empty(), r.fallback is None, //@C20
source core/src/introspection/ir/enum_ty.rs
only =EnumIrBuilder EnumIrBuilder::new EnumIrBuilder::doc EnumIrBuilder::variant EnumIrBuilder::fallback EnumIrBuilder::finish EnumIr::builder
fn EnumIrBuilder::new
    ensures r.schema == schema, r.name == name, r.doc is None, r.variants@ == Map::empty(), r.fallback is None, //@C20
fn EnumIrBuilder::doc
    ensures r.schema == self.schema, r.name == self.name, r.doc == Some(doc), r.variants == self.variants, r.fallback == self.fallback, //@C20
fn EnumIrBuilder::variant
    ensures r.schema == self.schema, r.name == self.name, r.doc == self.doc, r.variants@ == self.variants@.insert(variant.id, variant), r.fallback == self.fallback, //@C20
fn EnumIrBuilder::fallback
    ensures r.schema == self.schema, r.name == self.name, r.doc == self.doc, r.variants == self.variants, r.fallback == Some(fallback), //@C20
fn EnumIrBuilder::finish
    ensures r.schema == self.schema, r.name == self.name, r.doc == self.doc, r.variants == self.variants, r.fallback == self.fallback, //@C20
fn EnumIr::builder
    ensures r.schema == schema, r.name == name, r.doc is None, r.variants@ == Map::empty(), r.fallback is None, //@C20
source core/src/introspection/ir/service.rs
only =ServiceIrBuilder ServiceIrBuilder::new ServiceIrBuilder::doc ServiceIrBuilder::function ServiceIrBuilder::event ServiceIrBuilder::function_fallback ServiceIrBuilder::event_fallback ServiceIrBuilder::finish ServiceIr::builder
fn ServiceIrBuilder::new
    ensures r.schema == schema, r.name == name, r.doc is None, r.uuid == uuid, r.version == version, r.functions@ == Map::empty(), r.events@ == Map::empty(), r.function_fallback is None, r.event_fallback is None, //@C20
fn ServiceIrBuilder::doc
    ensures r.schema == self.schema, r.name == self.name, r.doc == Some(doc), r.uuid == self.uuid, r.version == self.version, r.functions == self.functions, r.events == self.events, r.function_fallback == self.function_fallback, r.event_fallback == self.event_fallback, //@C20
fn ServiceIrBuilder::function
    ensures r.schema == self.schema, r.name == self.name, r.doc == self.doc, r.uuid == self.uuid, r.version == self.version, r.functions@ == self.functions@.insert(function.id, function), r.events == self.events, r.function_fallback == self.function_fallback, r.event_fallback == self.event_fallback, //@C20
fn ServiceIrBuilder::event
    ensures r.schema == self.schema, r.name == self.name, r.doc == self.doc, r.uuid == self.uuid, r.version == self.version, r.functions == self.functions, r.events@ == self.events@.insert(event.id, event), r.function_fallback == self.function_fallback, r.event_fallback == self.event_fallback, //@C20
fn ServiceIrBuilder::function_fallback
    ensures r.schema == self.schema, r.name == self.name, r.doc == self.doc, r.uuid == self.uuid, r.version == self.version, r.functions == self.functions, r.events == self.events, r.function_fallback == Some(fallback), r.event_fallback == self.event_fallback, //@C20
fn ServiceIrBuilder::event_fallback
    ensures r.schema == self.schema, r.name == self.name, r.doc == self.doc, r.uuid == self.uuid, r.version == self.version, r.functions == self.functions, r.events == self.events, r.function_fallback == self.function_fallback, r.event_fallback == Some(fallback), //@C20
fn ServiceIrBuilder::finish
    ensures r.schema == self.schema, r.name == self.name, r.doc == self.doc, r.uuid == self.uuid, r.version == self.version, r.functions == self.functions, r.events == self.events, r.function_fallback == self.function_fallback, r.event_fallback == self.event_fallback, //@C20
fn ServiceIr::builder
    ensures r.schema == schema, r.name == name, r.doc is None, r.uuid == uuid, r.version == version, r.functions@ == Map::empty(), r.events@ == Map::empty(), r.function_fallback is None, r.event_fallback is None, //@C20
source core/src/introspection/ir/newtype.rs
only =NewtypeIrBuilder NewtypeIrBuilder::new NewtypeIrBuilder::doc NewtypeIrBuilder::finish NewtypeIr::builder
fn NewtypeIrBuilder::new
    ensures r.schema == schema, r.name == name, r.doc is None, r.target_type == target_type, //@C20
fn NewtypeIrBuilder::doc
    ensures r.schema == self.schema, r.name == self.name, r.doc == Some(doc), r.target_type == self.target_type, //@C20
fn NewtypeIrBuilder::finish
    ensures r.schema == self.schema, r.name == self.name, r.doc == self.doc, r.target_type == self.target_type, //@C20
fn NewtypeIr::builder
    ensures r.schema == schema, r.name == name, r.doc is None, r.target_type == target_type, //@C20
