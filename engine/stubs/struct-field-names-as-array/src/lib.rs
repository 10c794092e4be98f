pub use struct_field_names_as_array_derive::FieldNamesAsArray;
