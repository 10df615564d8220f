import json
P=[]
def p(id,title,st,over,text,why,files,mech):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech])))
p("C01","String constraints accept exactly the strings their facets allow",
 "A string constraint accepts a value exactly when the value is a string (given directly or through one pointer) whose length in characters is within the configured minimum and maximum, that matches the configured regular expression, that equals one of the configured enumeration values, and that satisfies the configured format (date-time, email, hostname, ipv4, ipv6, uri; unknown formats restrict nothing). A facet that was never configured restricts nothing, and configuring one facet changes no other facet. Any value that is not a string is rejected.",
 ["inputs","configurations"],"every value and every combination and order of facets",
 "The tests try a few literals per facet and never a combination; the verdict has to be right for every string and every set of facets.",
 ["string.go","interface.go"],[("Validate, facet setters","string.go"),("isDomainName","string.go")])
p("C02","Number and integer constraints accept exactly the numbers in range",
 "A number constraint accepts a floating point value, and an integer constraint accepts a value of any Go integer kind or a floating point value without a fractional part, exactly when it lies within the configured minimum and maximum (strictly where a bound is exclusive), is a multiple of the configured divisor (no restriction for an unset or zero divisor), and equals one of the configured enumeration values. A facet that was never configured restricts nothing and configuring one facet changes no other facet. Values of any other kind, and fractional values for an integer constraint, are rejected.",
 ["inputs","configurations"],"every numeric value of every Go kind (NaN excepted) and every combination and order of facets",
 "Boundary values, sign, exclusivity and combinations form an infinite space; the tests sample two or three numbers per facet.",
 ["number.go","interface.go"],[("Validate, facet setters of both constraints","number.go")])
p("C03","Boolean, null, empty and enumeration constraints give the right verdict",
 "A boolean constraint accepts exactly the boolean values, the null constraint accepts exactly an untyped nil and nil pointers, maps, slices, functions and channels, the empty constraint accepts everything, and an enumeration constraint accepts exactly the values equal to one of its listed values. None of the null and empty constraints offers a default value.",
 ["inputs","configurations"],"every value and every enumeration list of comparable values",
 "The tests use one or two values per constraint; the verdict must be right for every Go value.",
 ["bool.go","enum.go","basic.go"],[("Validate","bool.go, enum.go, basic.go")])
p("C04","not/all/any/one-of combinators equal the logical combination of their parts",
 "For every value, a negation accepts exactly when its part rejects, an all-combination exactly when every part accepts, an any-combination exactly when at least one part accepts, and a one-of-combination exactly when exactly one part accepts; parts are kept in the order in which they were added and none is lost. Reducing a combination gives its only part when it has exactly one and the combination itself otherwise, and changes no verdict of the combination.",
 ["inputs","configurations"],"every list of parts of any length, every sequence of additions and every value",
 "The tests combine two or three fixed parts; the law is over all lengths, positions of the accepting parts and values.",
 ["combinations.go","basic.go"],[("Validate, Add, Reduce","combinations.go"),("NotConstraint","basic.go")])
p("C05","Array constraints check length, uniqueness and every item once",
 "An array constraint accepts a value exactly when it is a slice, its length is within the configured bounds, its items are pairwise different as text when uniqueness is requested, and its items pass their constraints: with a common item constraint every item passes that one; otherwise every item at a configured position passes the constraint of that position and, when positions are configured, every item beyond them passes the additional-items constraint, or there are none if additional items are not allowed. A facet that was never configured restricts nothing and configuring one changes no other.",
 ["inputs","configurations"],"every slice of every length, every position, every configuration",
 "Off-by-one errors at positions and boundaries depend on the length of the array relative to the configuration; tests use arrays of two or three items.",
 ["array.go"],[("Validate and setters","array.go")])
p("C06","Object constraints judge every property of maps and structs exactly once",
 "An object constraint accepts a map with string keys or a struct (also through pointers) exactly when every required property is present (a default does not make up for a missing required property), the number of properties is within the configured bounds, every present declared property passes its constraint, and every present undeclared property passes the constraint of every pattern its name matches, or, if it matches no pattern, the additional-properties constraint, being rejected when there is none. Everything that is neither a map nor a struct is rejected, and the verdict never depends on the order in which properties are visited.",
 ["inputs","configurations"],"every map, struct and set of property, pattern, required, additional and count settings",
 "The verdict quantifies over all properties of all values and over map iteration orders; tests use a handful of literal objects.",
 ["object.go","structinfo.go"],[("Validate, getProp, getPropNames","object.go")])
p("C07","Property and schema dependencies are enforced",
 "When a value that otherwise satisfies its object constraint has a property with dependencies, it is accepted only if every property that the present property depends on is present too, and, where it depends on no properties, if the whole value passes the constraint registered as that property's schema dependency; dependencies of absent properties restrict nothing. Adding a dependency keeps all dependencies added before.",
 ["inputs","configurations"],"every set of present properties and every dependency relation",
 "The tests check one dependency on one object; the rule is over every relation and every subset of present properties.",
 ["object.go"],[("Validate (dependency part), PropDependency, SchemaDependency","object.go")])
p("C08","Defaults fill exactly the missing properties and nothing else",
 "When an object is validated, every declared property that is missing and has a default value is set to exactly that default in a map, or in a struct field that is an unset optional value, before the verdict is given; properties that are present keep their values and nothing else in the value is changed. A default that was configured is reported unchanged, a constraint with no configured default reports none, and a default that cannot be stored makes the validation fail with an error instead of being dropped.",
 ["inputs","configurations"],"every object value, every set of declared defaults",
 "Which properties are missing and how they are stored varies per value; tests look at two fixed structs and maps.",
 ["object.go","basic.go","maybe.go"],[("Validate (required/default part), setProp","object.go"),("defaultValue","basic.go")])
p("C09","Optional (maybe) values keep presence and value through set and JSON",
 "Setting an optional value to a value of a supported type makes it present with exactly that value, any other type is refused with an error and changes nothing; resetting makes it absent. Decoding from JSON makes it present with the decoded value, or fails and changes nothing, and encoding a present value and decoding the result gives an equal present value (times to whole seconds).",
 ["inputs","histories"],"every value of every supported type and every sequence of set, reset, encode and decode",
 "Infinitely many values and types; the tests have one document with a few optional fields.",
 ["maybe.go"],[("Set, Reset, Value, MarshalJSON, UnmarshalJSON","maybe.go")])
p("C10","References behave as the constraint they name; a validator as its root",
 "A reference constraint accepts a value, and offers a default, exactly as the constraint registered under its name does, whenever it was registered before the first use; a name that is not registered makes validation fail with an error and is looked up again later. Registering a name replaces only that name's constraint and loses no other, and a validator accepts exactly what its root constraint accepts.",
 ["inputs","histories","configurations"],"every registry, name, registration history and value",
 "Depends on the history of registrations and uses; tests have one fixed registry.",
 ["reference.go","jsval.go"],[("Resolved, Validate, SetReference, GetReference","reference.go"),("JSVal","jsval.go")])
p("C11","Struct values are validated under their JSON property names",
 "A struct is validated exactly as the object it represents: each exported field appears under the name given in its json tag, or under its own name when the tag gives none; fields tagged \"-\" and unexported fields do not appear; fields of embedded structs appear as the outer struct's own. An optional field appears exactly when it is present. The mapping from property names to fields and back is consistent, so validating or defaulting a property touches exactly that field.",
 ["inputs","programs"],"every struct type and value",
 "The mapping is defined over all struct types; tests use a few fixed types.",
 ["structinfo.go","object.go"],[("extract, Lookup, FieldName, PropNames","structinfo.go"),("getProp, getPropNames","object.go")])
p("C12","Building from a schema carries over every keyword of each typed schema",
 "For every schema with an explicit type that the builder accepts, the built constraint enforces exactly the keywords the schema gives for that type: length, pattern, format and enum for strings; bounds, exclusivity, divisor and enum for numbers and integers; length bounds, uniqueness, items and additional items for arrays; properties, required, patterns, additional properties, count bounds and dependencies for objects. The default of a string, number or integer schema, and a boolean default of a boolean schema, is carried over unchanged, and a keyword that the schema does not give restricts nothing.",
 ["inputs","configurations"],"every schema with an explicit type",
 "A keyword lost or mixed up for one combination of keywords goes unseen by a fixed list of schemas.",
 ["builder/string.go","builder/number.go","builder/array.go","builder/object.go","builder/bool.go"],[("build*Constraint","builder/")])
p("C13","Composite and untyped schemas build the conjunction of all their parts",
 "A schema that combines not, allOf, anyOf and oneOf with each other and with a type is built into a constraint that accepts exactly the values that satisfy all of them, each applied to its own sub-schemas. A schema with several types accepts exactly the values that satisfy the keywords of at least one of these types; a schema without a type is read as the type its keywords imply, as a plain enumeration if it only has an enum, and as accepting everything if it has no keywords at all. A schema that names an unknown type is reported as an error.",
 ["inputs","configurations"],"every combination of composition keywords, types and sub-schemas",
 "Combinations of keywords grow exponentially; tests check one at a time.",
 ["builder/builder.go"],[("buildFromSchema, guessSchemaType","builder/builder.go")])
p("C14","A built validator contains every definition its references reach",
 "After a successful build every reference that is reachable from the root, through any number of other references and however they cycle, is registered and resolves to a constraint equivalent to the schema it points to. A reference that points to nothing, or to something that is not a schema, makes the build fail with an error instead of producing a validator.",
 ["inputs","configurations"],"every schema document and reference graph, including cyclic ones",
 "Reference graphs of arbitrary depth and shape; tests contain one or two references.",
 ["builder/builder.go","builder/reference.go","reference.go"],[("buildFromSchema, compileReferences","builder/")])
p("C15","Generated code rebuilds a validator with the same verdicts",
 "For every validator, the Go code the generator emits compiles and constructs a validator that gives the same verdict as the original on every value and has the same name, references and defaults.",
 ["inputs","programs"],"every validator (schema) and every value",
 "The tests compile generated code for a few schemas only and compare few verdicts.",
 ["generator.go"],[("generateCode and the generate*Code functions","generator.go")])
p("C16","Validation is pure, releases its locks and never panics on JSON data",
 "Validating any value made of JSON data (nested maps, slices, strings, numbers, booleans, null) or a plain struct against any validator built from a schema (whose references do not lead back to themselves without descending into the value) gives a verdict and never panics; apart from filling in defaults it changes neither the value nor the observable behaviour of the validator, so repeating it gives the same verdict unless a default was filled in. Built validators can be used, and references registered and resolved, from any number of goroutines at once without data races or deadlock.",
 ["inputs","schedules","histories"],"every value, every validator, every interleaving of concurrent uses",
 "Freedom from panics and races is over all inputs and schedules; the tests run a few sequential validations.",
 ["object.go","reference.go","structinfo.go","array.go","basic.go"],[("lock discipline","reference.go, structinfo.go, jsval.go"),("frame of every Validate","*.go")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
fixed=[("C05","b4c1346","additionalItems was applied from item 0 instead of from the first item beyond the positional ones"),
("C01","3a21c06","minLength and maxLength counted bytes instead of characters"),
("C01","ddf8908","format date-time (its JSON Schema name) was not checked, only \"datetime\""),
("C01","e2bd69b","ipv6 addresses with hexadecimal digits were rejected"),
("C06","eb3462e","required properties without a definition in properties were not checked"),
("C07","4cbe20f","additional properties were not taken into account by dependencies"),
("C06","9e2fde8","a property matching several patterns was checked against one of them, chosen by map order"),
("C16","d110523","maps whose key type is a named string type, or no string at all, made validation panic"),
("C08","d6cc674","a default that cannot be stored made validation panic"),
("C11","fee4790","embedded pointers and embedded non-struct types made validation panic"),
("C11","a0f3c2c","undeclared optional fields were validated as the optional wrapper instead of the value they hold"),
("C06","51dc99c","a pointer to an interface holding a map, or to a pointer to a struct, made validation panic or report present properties as missing"),
("C12","b44d7f0","enum of a number or integer schema was compared as one single list value"),
("C13","1ea663d","a schema with several of not/allOf/anyOf/oneOf enforced only one of them"),
("C14","09c0035","a reference to something that is not a schema made the builder panic"),
("C02","f05be44","MultipleOf and Enum chained on Integer() lost the integer check"),
("C09","b6f92b8","a MaybeTime decoded from JSON stayed absent"),
("C15","548ac8e","generated code containing % was interpreted as a format string"),
("C15","ef17945","generated code for not constraints did not compile"),
("C15","34e9e8b","generated code for arrays without additional items did not compile"),
("C15","3165c0a","generated numeric bounds lost precision"),
("C15","cc5cfb0","multipleOf and enum of numbers were not generated"),
("C15","0af87ef","default and enum values were generated with another type"),
("C15","cb6ebaa","standalone enum constraints were not generated"),
("C15","4b46efa","an empty any or one-of was generated as a constraint that accepts everything"),
("C15","f0042d6","minProperties, maxProperties and schema dependencies were not generated"),
("C15","5890a7d","of two patterns with the same source only one was generated")]
json.dump(dict(comment="status known: reported as KNOWN-FINDING, matched by suite and observed text; status fixed: suppresses nothing",
 findings=[dict(status="fixed",property=a,commit=b,what=c,line="fixed: property=%s %s %s"%(a,b,c)) for a,b,c in fixed]),open('/verif/known-findings.json','w'),indent=1)
