package main

// The RAML 1.0 facets of every element the library reads, and the public accessor
// that reports each. This table is the oracle: it is written from the RAML
// specification and the public interfaces, not from the implementation.

type shape string

const (
	shStr     shape = "string"          // a plain string
	shOptStr  shape = "optional string" //
	shDate    shape = "date string"     // string or timestamp, optional
	shUint    shape = "unsigned"
	shOptUint shape = "optional unsigned"
	shOptInt  shape = "optional integer"
	shOptNum  shape = "optional number"
	shBool    shape = "boolean"
	shOptBool shape = "optional boolean"
	shAny     shape = "optional value" // any YAML value, kept as it is
	shStrs    shape = "list of strings"
	shStrsOr  shape = "string or list of strings"
	shDates   shape = "list of date strings"
	shInts    shape = "list of integers"
	shNums    shape = "list of numbers"
	shBools   shape = "list of booleans"
	shAnys    shape = "list of values"
	shIntFmt  shape = "integer format"
	shNumFmt  shape = "number format"
	shDateFmt shape = "date format"
	shElem    shape = "element"
	shElems   shape = "list of elements"
	shType    shape = "type declaration"
	shTypeMap shape = "map of type declarations"
	shFacets  shape = "map of facet definitions"
	shProps   shape = "map of properties"
	shExMap   shape = "map of examples"
	shNodeMap shape = "map of values"
	shStrMap  shape = "map of strings"
	shTypeExp shape = "type expression"
	shInclude shape = "included file"
)

type facet struct {
	keys   []string // the first is the name, the others are accepted aliases
	getter string
	shape  shape
	elem   string // element read from the value, for shElem, shElems and shExMap
}

func f(key, getter string, s shape, elem ...string) facet {
	x := facet{keys: []string{key}, getter: getter, shape: s}
	if len(elem) > 0 {
		x.elem = elem[0]
	}
	return x
}

func (f facet) alias(k string) facet {
	f.keys = append(f.keys, k)
	return f
}

// elemSpec describes one element.
type elemSpec struct {
	iface   string
	kind    string // kind constant of type declarations
	reader  string
	writer  string
	short   string // facet written and read in the short form, if there is one
	facets  []facet
	annots  string // accessor of the annotations, if the element can have any
	extra   string // accessor of the extra facets
	res     string // accessor of the resources
	example bool
	noRead  bool
}

func typeSpec(iface, kind, ex string, def, enum shape, more ...facet) elemSpec {
	fs := []facet{
		f("type", "Type", shTypeExp).alias("schema"),
		f("default", "Default", def),
		f("example", "Example", shElem, ex),
		f("examples", "Examples", shExMap, ex),
		f("enum", "Enum", enum),
		f("required", "Required", shBool),
		f("displayName", "DisplayName", shOptStr),
		f("description", "Description", shOptStr),
		f("facets", "FacetDefinitions", shFacets),
		f("xml", "XML", shElem, "XML"),
	}
	return elemSpec{iface: iface, kind: kind, reader: "UnmarshalRAML", writer: "ToYAML", short: "type", facets: append(fs, more...), annots: "Annotations", extra: "ExtraFacets"}
}

func exSpec(iface string, val shape) elemSpec {
	return elemSpec{iface: iface, reader: "UnmarshalRAML", writer: "ToYAML", short: "value", example: true, annots: "Annotations", extra: "ExtraFacets", facets: []facet{
		f("displayName", "DisplayName", shOptStr),
		f("description", "Description", shOptStr),
		f("strict", "Strict", shBool),
		f("value", "Value", val),
	}}
}

var specs = []elemSpec{
	{iface: "APISpec", reader: "UnmarshalYAML", writer: "MarshalYAML", annots: "Annotations", extra: "ExtraFacets", res: "Resources", facets: []facet{
		f("title", "Title", shStr),
		f("version", "Version", shOptStr),
		f("baseUri", "BaseURI", shOptStr),
		f("description", "Description", shOptStr),
		f("protocols", "Protocols", shStrs),
		f("mediaType", "MediaTypes", shStrsOr),
		f("documentation", "Documentation", shElems, "Documentation"),
		f("securedBy", "SecuredBy", shStrs),
		f("uses", "Uses", shStrMap),
		f("securitySchemes", "SecuritySchemes", shNodeMap),
		f("baseUriParameters", "BaseURIParameters", shNodeMap),
		f("traits", "Traits", shNodeMap),
		f("annotationTypes", "AnnotationTypes", shNodeMap),
		f("resourceTypes", "ResourceTypes", shNodeMap),
		f("types", "Types", shTypeMap).alias("schemas"),
	}},
	{iface: "Library", reader: "UnmarshalYAML", writer: "MarshalYAML", annots: "Annotations", extra: "ExtraFacets", facets: []facet{
		f("usage", "Usage", shOptStr),
		f("uses", "Uses", shStrMap),
		f("securitySchemes", "SecuritySchemes", shNodeMap),
		f("traits", "Traits", shNodeMap),
		f("annotationTypes", "AnnotationTypes", shNodeMap),
		f("resourceTypes", "ResourceTypes", shNodeMap),
		f("types", "Types", shTypeMap).alias("schemas"),
	}},
	{iface: "Documentation", reader: "UnmarshalRAML", writer: "ToYAML", extra: "ExtraFacets", facets: []facet{
		f("title", "Title", shStr),
		f("content", "Content", shStr),
	}},
	{iface: "XML", reader: "UnmarshalRAML", writer: "ToYAML", extra: "", facets: []facet{
		f("attribute", "IsAttribute", shOptBool),
		f("wrapped", "IsWrapped", shOptBool),
		f("name", "Name", shOptStr),
		f("namespace", "Namespace", shOptStr),
		f("prefix", "Prefix", shOptStr),
	}},
	typeSpec("AnyType", "any", "AnyExample", shAny, shAnys),
	typeSpec("ArrayType", "array", "ArrayExample", shAnys, shAnys,
		f("uniqueItems", "UniqueItems", shBool),
		f("minItems", "MinItems", shUint),
		f("maxItems", "MaxItems", shUint),
		f("items", "Items", shType)),
	typeSpec("BoolType", "boolean", "BoolExample", shOptBool, shBools),
	typeSpec("CustomType", "custom", "CustomExample", shAny, shAnys),
	typeSpec("DateOnlyType", "date-only", "DateOnlyExample", shDate, shDates),
	typeSpec("DatetimeType", "datetime", "DatetimeExample", shDate, shDates,
		f("format", "Format", shDateFmt)),
	typeSpec("DatetimeOnlyType", "datetime-only", "DatetimeOnlyExample", shDate, shDates),
	typeSpec("FileType", "file", "FileExample", shAny, shAnys,
		f("fileTypes", "FileTypes", shStrs),
		f("minLength", "MinLength", shUint),
		f("maxLength", "MaxLength", shUint)),
	typeSpec("IntegerType", "integer", "IntegerExample", shOptInt, shInts,
		f("minimum", "Minimum", shOptInt),
		f("maximum", "Maximum", shOptInt),
		f("format", "Format", shIntFmt),
		f("multipleOf", "MultipleOf", shOptNum)),
	typeSpec("NumberType", "number", "NumberExample", shOptNum, shNums,
		f("minimum", "Minimum", shOptNum),
		f("maximum", "Maximum", shOptNum),
		f("format", "Format", shNumFmt),
		f("multipleOf", "MultipleOf", shOptNum)),
	typeSpec("ObjectType", "object", "ObjectExample", shAny, shAnys,
		f("properties", "Properties", shProps),
		f("minProperties", "MinProperties", shOptUint),
		f("maxProperties", "MaxProperties", shOptUint),
		f("additionalProperties", "AdditionalProperties", shBool),
		f("discriminator", "Discriminator", shOptStr),
		f("discriminatorValue", "DiscriminatorValue", shAny)),
	typeSpec("StringType", "string", "StringExample", shOptStr, shStrs,
		f("pattern", "Pattern", shOptStr),
		f("minLength", "MinLength", shUint),
		f("maxLength", "MaxLength", shOptUint)),
	typeSpec("TimeOnlyType", "time-only", "TimeOnlyExample", shOptStr, shStrs),
	typeSpec("UnionType", "union", "UnionExample", shAny, shAnys),
	{iface: "NilType", kind: "nil", reader: "UnmarshalRAML", writer: "ToYAML", short: "type", extra: "ExtraFacets", facets: []facet{
		f("type", "Type", shTypeExp).alias("schema"),
		f("required", "Required", shBool),
	}},
	{iface: "IncludeType", kind: "include", reader: "UnmarshalRAML", writer: "ToYAML", short: "type", extra: "ExtraFacets", facets: []facet{
		f("type", "Type", shInclude).alias("schema"),
		f("required", "Required", shBool),
	}},
	exSpec("AnyExample", shAny),
	exSpec("ArrayExample", shAnys),
	exSpec("BoolExample", shOptBool),
	exSpec("CustomExample", shAny),
	exSpec("DateOnlyExample", shDate),
	exSpec("DatetimeExample", shDate),
	exSpec("DatetimeOnlyExample", shDate),
	exSpec("FileExample", shAny),
	exSpec("IntegerExample", shOptInt),
	exSpec("NumberExample", shOptNum),
	exSpec("ObjectExample", shAny),
	exSpec("StringExample", shOptStr),
	exSpec("TimeOnlyExample", shOptStr),
	exSpec("UnionExample", shAny),
}

func specOf(name string) *elemSpec {
	for i := range specs {
		if specs[i].iface == name {
			return &specs[i]
		}
	}
	return nil
}
