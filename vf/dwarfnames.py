"""Names of DWARF constants as in the standard (and the GNU extensions); independent of objutils.dwarf.constants."""

TAG = {
    0x1: "array_type", 0x2: "class_type", 0x3: "entry_point", 0x4: "enumeration_type", 0x5: "formal_parameter", 0x8: "imported_declaration",
    0xa: "label", 0xb: "lexical_block", 0xd: "member", 0xf: "pointer_type", 0x10: "reference_type", 0x11: "compile_unit", 0x12: "string_type",
    0x13: "structure_type", 0x15: "subroutine_type", 0x16: "typedef", 0x17: "union_type", 0x18: "unspecified_parameters", 0x19: "variant",
    0x1a: "common_block", 0x1b: "common_inclusion", 0x1c: "inheritance", 0x1d: "inlined_subroutine", 0x1e: "module", 0x1f: "ptr_to_member_type",
    0x20: "set_type", 0x21: "subrange_type", 0x22: "with_stmt", 0x23: "access_declaration", 0x24: "base_type", 0x25: "catch_block",
    0x26: "const_type", 0x27: "constant", 0x28: "enumerator", 0x29: "file_type", 0x2a: "friend", 0x2b: "namelist", 0x2c: "namelist_item",
    0x2d: "packed_type", 0x2e: "subprogram", 0x2f: "template_type_parameter", 0x30: "template_value_parameter", 0x31: "thrown_type",
    0x32: "try_block", 0x33: "variant_part", 0x34: "variable", 0x35: "volatile_type", 0x36: "dwarf_procedure", 0x37: "restrict_type",
    0x38: "interface_type", 0x39: "namespace", 0x3a: "imported_module", 0x3b: "unspecified_type", 0x3c: "partial_unit", 0x3d: "imported_unit",
    0x3f: "condition", 0x40: "shared_type", 0x41: "type_unit", 0x42: "rvalue_reference_type", 0x43: "template_alias", 0x44: "coarray_type",
    0x45: "generic_subrange", 0x46: "dynamic_type", 0x47: "atomic_type", 0x48: "call_site", 0x49: "call_site_parameter", 0x4a: "skeleton_unit",
    0x4b: "immutable_type", 0x4106: "GNU_template_template_param", 0x4107: "GNU_template_parameter_pack", 0x4109: "GNU_call_site",
    0x410a: "GNU_call_site_parameter",
}

AT = {
    0x1: "sibling", 0x2: "location", 0x3: "name", 0x9: "ordering", 0xb: "byte_size", 0xc: "bit_offset", 0xd: "bit_size", 0x10: "stmt_list",
    0x11: "low_pc", 0x12: "high_pc", 0x13: "language", 0x15: "discr", 0x16: "discr_value", 0x17: "visibility", 0x18: "import", 0x19: "string_length",
    0x1a: "common_reference", 0x1b: "comp_dir", 0x1c: "const_value", 0x1d: "containing_type", 0x1e: "default_value", 0x20: "inline",
    0x21: "is_optional", 0x22: "lower_bound", 0x25: "producer", 0x27: "prototyped", 0x2a: "return_addr", 0x2c: "start_scope", 0x2e: "bit_stride",
    0x2f: "upper_bound", 0x31: "abstract_origin", 0x32: "accessibility", 0x33: "address_class", 0x34: "artificial", 0x35: "base_types",
    0x36: "calling_convention", 0x37: "count", 0x38: "data_member_location", 0x39: "decl_column", 0x3a: "decl_file", 0x3b: "decl_line",
    0x3c: "declaration", 0x3d: "discr_list", 0x3e: "encoding", 0x3f: "external", 0x40: "frame_base", 0x41: "friend", 0x42: "identifier_case",
    0x43: "macro_info", 0x44: "namelist_item", 0x45: "priority", 0x46: "segment", 0x47: "specification", 0x48: "static_link", 0x49: "type",
    0x4a: "use_location", 0x4b: "variable_parameter", 0x4c: "virtuality", 0x4d: "vtable_elem_location", 0x4e: "allocated", 0x4f: "associated",
    0x50: "data_location", 0x51: "byte_stride", 0x52: "entry_pc", 0x53: "use_UTF8", 0x54: "extension", 0x55: "ranges", 0x56: "trampoline",
    0x57: "call_column", 0x58: "call_file", 0x59: "call_line", 0x5a: "description", 0x5b: "binary_scale", 0x5c: "decimal_scale", 0x5d: "small",
    0x5e: "decimal_sign", 0x5f: "digit_count", 0x60: "picture_string", 0x61: "mutable", 0x62: "threads_scaled", 0x63: "explicit",
    0x64: "object_pointer", 0x65: "endianity", 0x66: "elemental", 0x67: "pure", 0x68: "recursive", 0x69: "signature", 0x6a: "main_subprogram",
    0x6b: "data_bit_offset", 0x6c: "const_expr", 0x6d: "enum_class", 0x6e: "linkage_name", 0x6f: "string_length_bit_size",
    0x70: "string_length_byte_size", 0x71: "rank", 0x72: "str_offsets_base", 0x73: "addr_base", 0x74: "rnglists_base",
    0x76: "dwo_name", 0x77: "reference", 0x78: "rvalue_reference", 0x79: "macros", 0x7a: "call_all_calls", 0x7b: "call_all_source_calls",
    0x7c: "call_all_tail_calls", 0x7d: "call_return_pc", 0x7e: "call_value", 0x7f: "call_origin", 0x80: "call_parameter", 0x81: "call_pc",
    0x82: "call_tail_call", 0x83: "call_target", 0x84: "call_target_clobbered", 0x85: "call_data_location", 0x86: "call_data_value", 0x87: "noreturn",
    0x88: "alignment", 0x89: "export_symbols", 0x8a: "deleted", 0x8b: "defaulted", 0x8c: "loclists_base", 0x2007: "MIPS_linkage_name",
    0x2107: "GNU_vector", 0x2111: "GNU_call_site_value", 0x2113: "GNU_call_site_target", 0x2115: "GNU_tail_call", 0x2116: "GNU_all_tail_call_sites",
    0x2117: "GNU_all_call_sites", 0x2119: "GNU_macros", 0x2134: "GNU_pubnames",
}

ATE = {
    0x1: "address", 0x2: "boolean", 0x3: "complex_float", 0x4: "float", 0x5: "signed", 0x6: "signed_char", 0x7: "unsigned", 0x8: "unsigned_char",
    0x9: "imaginary_float", 0xa: "packed_decimal", 0xb: "numeric_string", 0xc: "edited", 0xd: "signed_fixed", 0xe: "unsigned_fixed",
    0xf: "decimal_float", 0x10: "UTF", 0x11: "UCS", 0x12: "ASCII",
}

LANG = {
    0x1: "C89", 0x2: "C", 0x3: "Ada83", 0x4: "C_plus_plus", 0x5: "Cobol74", 0x6: "Cobol85", 0x7: "Fortran77", 0x8: "Fortran90", 0x9: "Pascal83",
    0xa: "Modula2", 0xb: "Java", 0xc: "C99", 0xd: "Ada95", 0xe: "Fortran95", 0xf: "PLI", 0x10: "ObjC", 0x11: "ObjC_plus_plus", 0x12: "UPC", 0x13: "D",
    0x14: "Python", 0x15: "OpenCL", 0x16: "Go", 0x17: "Modula3", 0x18: "Haskell", 0x19: "C_plus_plus_03", 0x1a: "C_plus_plus_11", 0x1b: "OCaml",
    0x1c: "Rust", 0x1d: "C11", 0x1e: "Swift", 0x1f: "Julia", 0x20: "Dylan", 0x21: "C_plus_plus_14", 0x22: "Fortran03", 0x23: "Fortran08",
    0x24: "RenderScript", 0x25: "BLISS", 0x26: "Kotlin", 0x27: "Zig", 0x28: "Crystal", 0x2a: "C_plus_plus_17", 0x2b: "C_plus_plus_20", 0x2c: "C17",
    0x2d: "Fortran18", 0x2e: "Ada2005", 0x2f: "Ada2012", 0x30: "HIP", 0x31: "Assembly", 0x32: "C_sharp", 0x34: "GLSL", 0x35: "GLSL_ES", 0x36: "HLSL",
    0x37: "OpenCL_CPP", 0x38: "CPP_for_OpenCL", 0x39: "SYCL", 0x40: "Ruby", 0x41: "Move", 0x42: "Hylo", 0x8001: "Mips_Assembler",
}

OP = {
    0x3: "addr", 0x6: "deref", 0x8: "const1u", 0x9: "const1s", 0xa: "const2u", 0xb: "const2s", 0xc: "const4u", 0xd: "const4s", 0xe: "const8u",
    0xf: "const8s", 0x10: "constu", 0x11: "consts", 0x12: "dup", 0x13: "drop", 0x14: "over", 0x15: "pick", 0x16: "swap", 0x17: "rot", 0x18: "xderef",
    0x19: "abs", 0x1a: "and", 0x1b: "div", 0x1c: "minus", 0x1d: "mod", 0x1e: "mul", 0x1f: "neg", 0x20: "not", 0x21: "or", 0x22: "plus",
    0x23: "plus_uconst", 0x24: "shl", 0x25: "shr", 0x26: "shra", 0x27: "xor", 0x28: "bra", 0x29: "eq", 0x2a: "ge", 0x2b: "gt", 0x2c: "le", 0x2d: "lt",
    0x2e: "ne", 0x2f: "skip", 0x90: "regx", 0x91: "fbreg", 0x92: "bregx", 0x93: "piece", 0x94: "deref_size", 0x95: "xderef_size", 0x96: "nop",
    0x97: "push_object_address", 0x98: "call2", 0x99: "call4", 0x9a: "call_ref", 0x9b: "form_tls_address", 0x9c: "call_frame_cfa", 0x9d: "bit_piece",
    0x9e: "implicit_value", 0x9f: "stack_value", 0xa0: "implicit_pointer", 0xa1: "addrx", 0xa2: "constx", 0xa3: "entry_value", 0xa4: "const_type",
    0xa5: "regval_type", 0xa6: "deref_type", 0xa7: "xderef_type", 0xa8: "convert", 0xa9: "reinterpret",
}

# Tags and attributes of the vendors, and retired ones of DWARF 1: names as in elfutils and LLVM (some values were used twice).
VENDOR_TAG = {
    0x4081: ("HP_array_descriptor", "MIPS_loop"), 0x4101: ("format_label",), 0x4102: ("function_template",), 0x4103: ("class_template",),
    0x4104: ("GNU_BINCL",), 0x4105: ("GNU_EINCL",), 0x4108: ("GNU_formal_parameter_pack",), 0x8765: ("UPC_shared_type",),
    0x8766: ("UPC_strict_type",), 0x8767: ("UPC_relaxed", "UPC_relaxed_type"), 0xa000: ("PGI_kanji_type",), 0xa020: ("PGI_interface_block",),
}

VENDOR_AT = {
    0xa: ("subscr_data",), 0xf: ("element_list",), 0x14: ("member",), 0x2001: ("CPQ_discontig_ranges", "MIPS_fde"),
    0x2002: ("CPQ_semantic_events", "MIPS_loop_begin"), 0x2003: ("CPQ_split_lifetimes_var", "MIPS_tail_loop_begin"),
    0x2004: ("CPQ_split_lifetimes_rtn", "MIPS_epilog_begin"), 0x2005: ("CPQ_prologue_length", "MIPS_loop_unroll_factor"),
    0x2006: ("MIPS_software_pipeline_depth",), 0x2008: ("HP_epilogue", "MIPS_stride"), 0x2009: ("MIPS_abstract_name",),
    0x200a: ("MIPS_clone_origin",), 0x200b: ("MIPS_has_inlines",), 0x2010: ("HP_actuals_stmt_list", "MIPS_assumed_shape_dopetype"),
    0x2011: ("HP_proc_per_section", "MIPS_assumed_size"), 0x2012: ("HP_raw_data_ptr",), 0x2013: ("HP_pass_by_reference",), 0x2014: ("HP_opt_level",),
    0x2015: ("HP_prof_version_id",), 0x2016: ("HP_opt_flags",), 0x2017: ("HP_cold_region_low_pc",), 0x2018: ("HP_cold_region_high_pc",),
    0x2019: ("HP_all_variables_modifiable",), 0x201a: ("HP_linkage_name",), 0x201b: ("HP_prof_flags",), 0x201f: ("HP_unit_name",),
    0x2020: ("HP_unit_size",), 0x2021: ("HP_widened_byte_size",), 0x2022: ("HP_definition_points",), 0x2023: ("HP_default_location",),
    0x2029: ("HP_is_result_param",), 0x2101: ("sf_names",), 0x2102: ("src_info",), 0x2103: ("mac_info",), 0x2104: ("src_coords",),
    0x2105: ("body_begin",), 0x2106: ("body_end",), 0x2108: ("GNU_guarded_by",), 0x2109: ("GNU_pt_guarded_by",), 0x210a: ("GNU_guarded",),
    0x210b: ("GNU_pt_guarded",), 0x210c: ("GNU_locks_excluded",), 0x210d: ("GNU_exclusive_locks_required",), 0x210e: ("GNU_shared_locks_required",),
    0x210f: ("GNU_odr_signature",), 0x2110: ("GNU_template_name",), 0x2112: ("GNU_call_site_data_value",),
    0x2114: ("GNU_call_site_target_clobbered",), 0x2118: ("GNU_all_source_call_sites",), 0x211a: ("GNU_deleted",), 0x2130: ("GNU_dwo_name",),
    0x2131: ("GNU_dwo_id",), 0x2132: ("GNU_ranges_base",), 0x2133: ("GNU_addr_base",), 0x2135: ("GNU_pubtypes",), 0x2136: ("GNU_discriminator",),
    0x2201: ("VMS_rtnbeg_pd_address",), 0x2301: ("use_GNAT_descriptive_type",), 0x2302: ("GNAT_descriptive_type",), 0x2303: ("GNU_numerator",),
    0x2304: ("GNU_denominator",), 0x2305: ("GNU_bias",), 0x3210: ("UPC_threads_scaled",), 0x3a00: ("PGI_lbase",), 0x3a01: ("PGI_soffset",),
    0x3a02: ("PGI_lstride",), 0x3fe1: ("APPLE_optimized",), 0x3fe2: ("APPLE_flags",), 0x3fe3: ("APPLE_isa",), 0x3fe4: ("APPLE_block",),
    0x3fe5: ("APPLE_major_runtime_vers",), 0x3fe6: ("APPLE_runtime_class",), 0x3fe7: ("APPLE_omit_frame_ptr",), 0x3fe8: ("APPLE_property_name",),
    0x3fe9: ("APPLE_property_getter",), 0x3fea: ("APPLE_property_setter",), 0x3feb: ("APPLE_property_attribute",),
    0x3fec: ("APPLE_objc_complete_type",), 0x3fed: ("APPLE_property",),
}
