// Typed values: the recursion through Value is cut by an opaque child type (C01, C07)
subst Some(Box<Self>) => Some(Box<Child>)
subst Vec(Vec<Self>) => Vec(Vec<Child>)
subst , Self>), => , Child>),
subst HashMap<u32, Value> => HashMap<u32, Child>
subst pub value: Value => pub value: Child
subst value: Value) => value: Child)
subst tags::Value> => TagValue>
subst tags::U8, => TagU8,
subst tags::I8, => TagI8,
subst tags::U16, => TagU16,
subst tags::I16, => TagI16,
subst tags::U32, => TagU32,
subst tags::I32, => TagI32,
subst tags::U64, => TagU64,
subst tags::I64, => TagI64,
subst tags::String, => TagString,
subst tags::Uuid, => TagUuid,
subst value: &str => value: &VxStr
subst value.into() => vx_bit(value)
subst impl Into<u32> => impl VxInto32
subst id.into() => id.vx_into32()
subst U::IntoIter: ExactSizeIterator, => 
subst I::IntoIter: ExactSizeIterator, => 
subst T::IntoIter: ExactSizeIterator, => 
subst KeyTagImpl>::Key<'_> => KeyTagImpl>::Key
subst Serialize<Self> for Struct => Serialize<Struct> for Struct
subst Serialize<Self> for Enum => Serialize<Enum> for Enum
subst Cow<'_, str> => VxStr
subst Cow::Borrowed(self) => self.vx_borrow()
subst serialize_byte_slice2(value) => serialize_byte_slice2(value.vx_slice())
