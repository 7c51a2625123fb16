FLD = "Existing tests decode one or two sample dumps per structure; a wrong bit position, width, mask, variant code or length limit for any other register value goes unseen."
def dec(id, title, statement, files, mech, why=FLD, note=None):
    prop(id, title, statement, ["inputs"], BYTES, why, files, mech, note)

prop("C01", "No input makes decoding panic",
     "Decoding any byte string as a configuration header, a capability, an extended capability or a whole capability list, and then reading everything the decoded values offer (fields, nested lists and tables, derived values), never panics, overflows or indexes out of bounds. Every malformed input is answered by an error value or the end of a list.",
     ["inputs"], BYTES + ", every accessor argument and every sequence of reads of the decoded values",
     "Tests feed well-formed dumps; the panicking inputs are truncated, self-contradictory or reserved encodings.",
     ["src/lib.rs", "src/header.rs", "src/capabilities.rs", "src/extended_capabilities.rs"],
     [("checked slicing and error conversion in every decoder", "TryFrom<&[u8]> implementations under src/")])
prop("C02", "Too-short or invalid data gives an error, sufficient data never does",
     "Decoding a single structure (header, capability body, extended capability body) succeeds exactly when the data holds all bytes that structure needs, including the variable part its own fields announce where that part is mandatory, and its version or type code is a supported one. Otherwise decoding returns an error that tells the reason (too short, unsupported version, unknown type with the offending value) and names the structure it is about, so that errors of different structure kinds are never equal; it never returns a partially filled value.",
     ["inputs"], "every structure kind, every content and every length",
     "Tests try few lengths; the boundary lengths of each structure and the conditional parts are not enumerated.",
     ["src/header.rs", "src/capabilities", "src/extended_capabilities"],
     [("length check before field extraction", "TryFrom<&[u8]> implementations under src/")])
prop("C04", "The capability list is followed exactly as linked",
     "Iterating the capability list yields one result per linked structure in link order, starting at the header's capabilities pointer and following each structure's next pointer, with the two reserved low pointer bits ignored, until a zero pointer. Each result carries the structure's own position; a structure that cannot be decoded is reported as an error at its position and the structures linked after it still follow, while a pointer below 40h or a structure header outside the data is reported once as an error and ends the list.",
     ["inputs", "histories"], "every device-dependent region content and length, every header, every chain of next pointers",
     "Tests walk two recorded lists; broken links, reserved pointer bits, undecodable members and truncated regions are not sampled.",
     ["src/capabilities.rs"], [("list iterator", "Capabilities::next"), ("one list step", "parse_cap")])
prop("C05", "Each capability ID is decoded as its own structure kind",
     "Every list member is decoded according to its ID byte (PCI-SIG codes 00h-15h; for PCI-X also according to the header type) from the bytes that follow its two-byte list header, giving exactly the value or error that decoding those bytes as that structure gives. IDs without a body are reported by kind alone and unknown IDs as reserved with that ID.",
     ["inputs"], "every ID, every header, every position and content of the member",
     "Tests contain only the IDs of the recorded devices; a swapped, missing or displaced decoder for another ID compiles and passes.",
     ["src/capabilities.rs"], [("dispatch on the ID", "parse_cap")])
prop("C06", "The extended capability list is followed exactly as linked",
     "Iterating the extended capability list starts at offset 100h and follows each member's 12-bit next offset, with the two reserved low bits ignored, until a zero offset or an all-zero header. Each result carries the member's own offset and version; a member that cannot be decoded is reported as an error at its offset and the members linked after it still follow, while an offset below 100h or a member header outside the data is reported once as an error and ends the list.",
     ["inputs", "histories"], "every extended configuration space content and length, every chain of next offsets",
     "Tests walk one recorded list; broken links, reserved bits, undecodable members and truncated spaces are not sampled.",
     ["src/extended_capabilities.rs"], [("list iterator", "ExtendedCapabilities::next"), ("one list step", "parse_ecap")])
prop("C07", "Each extended capability ID is decoded as its own structure kind",
     "Every extended list member is decoded according to its 16-bit ID (PCI-SIG codes 0000h-0034h) from its own bytes, giving exactly the value or error that decoding those bytes as that structure gives. IDs without a supported body are reported by kind alone, unknown IDs as reserved with that ID, and a decoded member tells back the ID it was decoded from.",
     ["inputs"], "every ID, every offset, content and length of the member",
     "Tests contain only the IDs of the recorded devices; a swapped, missing or displaced decoder for another ID compiles and passes.",
     ["src/extended_capabilities.rs"], [("dispatch on the ID", "parse_ecap"), ("ID of a decoded member", "ExtendedCapability::id")])
prop("C03", "Every list and table iteration ends and stays ended",
     "For every input, iterating a capability list, an extended capability list or any list or table a decoded structure offers ends after finitely many items: never more than the structure announces or the data can hold, also when next pointers form a loop or point back. Every item taken brings the iteration closer to its end, and once an iteration has ended it stays ended.",
     ["inputs", "histories"], BYTES + ", including looped and self-referencing lists, and every number of next() calls",
     "Tests iterate well-formed lists to their end; looped pointer chains and calls after the end are not sampled.",
     ["src/capabilities.rs", "src/extended_capabilities.rs", "src/header/bar.rs", "src/capabilities/enhanced_allocation.rs", "src/extended_capabilities"],
     [("Iterator implementations", "impl Iterator for ... under src/"), ("loop bound", "Capabilities::next, ExtendedCapabilities::next")])
dec("C08", "Configuration header fields come from their architected places",
    "Decoding a configuration header yields every common field (IDs, command and status bits, revision, class code, cache line size, latency timer, header type, multi-function flag, BIST, capabilities pointer, interrupt line and pin) and every field of the normal, PCI-to-PCI bridge and CardBus layouts with the bit positions, widths and encodings of the PCI specifications. The layout is chosen by the low seven bits of the header type; bridge windows, expansion ROM address and optional CardBus registers are assembled from all their registers.",
    ["src/header.rs", "src/header/command.rs", "src/header/status.rs", "src/header/bridge_control.rs", "src/header/cardbus_bridge_control.rs"],
    [("header decoder", "From<[u8; 64]> for Header")])
dec("C09", "Base addresses are told apart and assembled exactly",
    "Iterating the base address registers of a header yields, in register order, one item per implemented address with the index of its first register: I/O, 32-bit, below-1-MB, 64-bit (joined with the following register, which is not reported again) or reserved memory, with prefetchable flag and address free of flag bits. All-zero registers are skipped, and a 64-bit address whose upper half has no register is reported as broken.",
    ["src/header/bar.rs"], [("iterator", "BaseAddresses::next"), ("encoding back", "FromIterator<BaseAddress> for [u32; N]")])
dec("C10", "Class codes name the class, subclass and interface of the PCI ID list",
    "For every base class, sub-class and programming interface value, the textual meaning is the one the class code list gives: class name always, subclass name exactly for listed subclasses, interface name exactly for listed interfaces. The three numbers come from their own header bytes.",
    ["src/header/class_code.rs"], [("table", "ClassCode::meaning")],
    "There are 16 million class codes; tests look at none of the table's lines.")
dec("C11", "PCI Express capability fields come from their architected places",
    "Decoding a PCI Express capability yields every field of its capability, device, link, slot, root and second-generation registers with the bit positions, widths, encodings and reserved codes of the PCI Express Base Specification. Register groups that the capability version or the port type does not implement are reported as absent, and device/port type classification and slot power limit follow the same registers.",
    [C + "pci_express.rs"], [("decoder", "TryFrom<&[u8]> for PciExpress")])
dec("C12", "MSI and MSI-X fields come from their architected places",
    "Decoding an MSI capability yields the control bits, vector counts, 32- or 64-bit message address, message data and, exactly when per-vector masking is advertised, mask and pending bits, from the places the address size determines. Decoding an MSI-X capability yields table size, enable and mask bits and the BAR indicators and offsets of table and pending-bit array.",
    [C + "message_signaled_interrups.rs", C + "msi_x.rs"], [("decoders", "TryFrom<&[u8]> for MessageSignaledInterrups, From<[u8; 10]> for MsiX")])
dec("C13", "Conventional PCI capabilities decode field by field",
    "Decoding a power management, AGP, VPD, slot identification, PCI-X (device or bridge), debug port, bridge subsystem ID, SATA, advanced features or flattening portal bridge capability yields every field with the bit position, width, encoding and reserved codes of its specification. Optional parts are present exactly when the structure advertises them.",
    [C + f for f in ("power_management_interface.rs", "accelerated_graphics_port.rs", "vital_product_data.rs", "slot_identification.rs", "pci_x.rs", "debug_port.rs", "bridge_subsystem_vendor_id.rs", "sata.rs", "advanced_features.rs", "flattening_portal_bridge.rs")],
    [("decoders", "TryFrom<&[u8]> implementations of these structures")])
dec("C14", "HyperTransport capability types and fields decode by type code",
    "Decoding a HyperTransport capability chooses the capability type from its three- or five-bit type code and reports unknown codes as reserved. Every field of the slave/primary, host/secondary and MSI mapping types, including link widths, frequencies and error bits, comes from its architected place, and the MSI mapping address is assembled from both of its registers.",
    [C + "hypertransport.rs"], [("decoder", "TryFrom<&[u8]> for Hypertransport")])
dec("C15", "Vendor-specific capability and virtio decoding",
    "Decoding a vendor-specific capability yields exactly the announced number of body bytes, decoded as a virtio structure when vendor and device ID say it is a virtio device and as raw bytes otherwise. Every virtio structure kind, with its BAR, offset, length and kind-specific fields, comes from its architected place.",
    [C + "vendor_specific.rs"], [("decoders", "VendorSpecific::try_new, TryFrom<&[u8]> for Virtio")])
dec("C16", "Enhanced Allocation entries decode one by one from their own size",
    "Decoding an Enhanced Allocation capability yields the bridge bus numbers for bridge headers only and exactly the announced number of entries, each starting where the previous one ends by its own announced size. Every entry's indicator, properties, flags, base and maximum offset, 32 or 64 bits wide as its own bits say, comes from its architected place; a truncated entry ends the list. (With the library feature caps_ea_real_entry_size an entry instead starts where the registers of the previous one end.)",
    [C + "enhanced_allocation.rs"], [("decoder", "EnhancedAllocation::try_new"), ("entry iterator", "EnhancedAllocationEntries::next")])
dec("C17", "Error reporting and containment capabilities decode field by field",
    "Decoding an Advanced Error Reporting or Downstream Port Containment capability yields every status, mask, severity and control bit, header and prefix logs, root error registers and root-port PIO registers from their architected places. Optional register groups are present exactly when the data holds them or the structure advertises them.",
    [E + "advanced_error_reporting.rs", E + "downstream_port_containment.rs"], [("decoders", "TryFrom<&[u8]> for AdvancedErrorReporting, DownstreamPortContainment")])
dec("C18", "Virtual channel capabilities and arbitration tables",
    "Decoding a (multi-function) virtual channel capability yields every port and per-channel register field for exactly the announced number of channels. Arbitration tables start at the announced offset, have the length the selected scheme dictates and yield each phase entry in order with the announced entry width; a table outside the data is reported as absent or truncated, never invented.",
    [E + "virtual_channel.rs", E + "multifunction_virtual_channel.rs"], [("decoders and table iterators", "TryFrom<&[u8]> for VirtualChannel, MultifunctionVirtualChannel")])
dec("C19", "I/O virtualization capabilities decode field by field",
    "Decoding an SR-IOV, ATS, page request, PASID, ARI or ACS capability yields every field with the bit position, width, encoding and reserved codes of its specification. The ACS egress control vector has exactly as many bits as its size field says (00h stands for 256), each at its own position, and is empty when not advertised or not wholly inside the data.",
    [E + f for f in ("single_root_io_virtualization.rs", "address_translation_services.rs", "page_request_interface.rs", "process_address_space_id.rs", "alternative_routing_id_interpolation.rs", "access_control_services.rs")],
    [("decoders", "TryFrom<&[u8]> implementations of these structures")])
dec("C20", "Multicast, TPH requester and LN requester decode field by field",
    "Decoding a multicast, TPH requester or LN requester capability yields every field with the bit position, width, encoding and reserved codes of its specification. The TPH steering table is present exactly when it is advertised to live in the capability, with the announced number of entries in order.",
    [E + "multicast.rs", E + "tph_requester.rs", E + "ln_requester.rs"], [("decoders", "TryFrom<&[u8]> implementations of these structures")])
dec("C21", "Power, latency, timing and readiness capabilities decode field by field",
    "Decoding a power budgeting, dynamic power allocation, latency tolerance, L1 PM substates, precision time measurement, readiness time or FRS queuing capability yields every field with the bit position, width, encoding and reserved codes of its specification. The dynamic power allocation array has exactly one entry per announced substate.",
    [E + f for f in ("power_budgeting.rs", "dynamic_power_allocation.rs", "latency_tolerance_reporting.rs", "l1_pm_substates.rs", "precision_time_measurement.rs", "readiness_time_reporting.rs", "frs_queuing.rs")],
    [("decoders", "TryFrom<&[u8]> implementations of these structures")])
dec("C22", "Resizable BAR entries decode one by one",
    "Decoding a resizable BAR capability yields exactly the announced number of entries in order, each with its supported-sizes bits, BAR index and selected size from its own two registers. Asking an entry whether it supports a size that is a given power of two answers from exactly the bit that stands for this size, and says no for sizes no bit stands for.",
    [E + "resizable_bar.rs"], [("decoder and entry iterator", "TryFrom<&[u8]> for ResizableBar, ResizableBar::next")])
dec("C23", "Root complex topology capabilities and serial number decode field by field",
    "Decoding a root complex link declaration, internal link control, event collector association or register block header, a configuration access correlation or a device serial number capability yields every field from its architected place. Link entries are exactly as many as announced, each with its own description and an address (memory-mapped or configuration space) as its link type says.",
    [E + f for f in ("root_complex_link_declaration.rs", "root_complex_internal_link_control.rs", "root_complex_event_collector_endpoint_association.rs", "root_complex_register_block_header.rs", "configuration_access_correlation.rs", "device_serial_number.rs")],
    [("decoders", "TryFrom<&[u8]> implementations of these structures")])
dec("C24", "Vendor-specific extended capabilities and CXL decode by their own header",
    "Decoding a vendor-specific or designated vendor-specific extended capability yields its vendor, ID, revision and length and exactly the body bytes its own length announces. A designated body of the CXL consortium is decoded by its ID into the CXL structure with every field from its architected place; any other is given as raw bytes.",
    [E + "vendor_specific_extended_capability.rs", E + "designated_vendor_specific_extended_capability.rs", E + "designated_vendor_specific_extended_capability/compute_express_link.rs", E + "designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device.rs"],
    [("decoders", "TryFrom<&[u8]> implementations of these structures")])
dec("C25", "Secondary PCIe, protocol multiplexing and M-PHY decode field by field",
    "Decoding a secondary PCI Express, protocol multiplexing or PCIe-over-M-PHY capability yields every field with the bit position, width, encoding and reserved codes of its specification. Per-lane equalization settings come one per lane in lane order, as many as the data holds up to the link width asked for, and the protocol array holds exactly the announced number of entries.",
    [E + "secondary_pci_express.rs", E + "protocol_multiplexing.rs", E + "pci_express_over_m_phy.rs"],
    [("decoders", "TryFrom<&[u8]> implementations of these structures")])
dec("C26", "Encoding a decoded field or register gives back its bits",
    "Where the library can turn a value back into raw bits (registers, enumerations, latencies, address ranges, base addresses, array entries), decoding a raw value and encoding the result gives back the defined bits of that raw value, reserved codes included, and decoding again gives the same value. Encoding never drops a capability or scale bit and never panics on a decoded value.",
    ["src/header.rs", "src/header/bar.rs", C + "pci_express.rs", C + "power_management_interface.rs", E + "latency_tolerance_reporting.rs", E + "l1_pm_substates.rs", E + "virtual_channel.rs", E + "multifunction_virtual_channel.rs", E + "protocol_multiplexing.rs"],
    [("encoders", "From<...> for u8, u16, u32, u64, [u8; N] implementations"), ("base addresses", "FromIterator<BaseAddress> for [u32; N]")],
    "Tests encode few values; a wrong shift or a lost variant in an encoder is invisible for the values sampled.")
prop("C27", "Decoded values are plain values without hidden state",
     "Decoding depends on the given bytes alone: the library has no mutable global state, makes no call outside the program and allocates nothing, and decoded values can be shared between threads. A clone of a partly consumed list or table goes on exactly where the original was and leaves it alone, equals the original, and lists or tables that compare equal yield the same items.",
     ["inputs", "histories", "schedules"], "every function of the library, every list and table type, every content and every number of items already taken",
     "Hidden state and wrong equality of partly consumed iterators show only in particular histories, which tests do not build.",
     ["src"], [("Clone and PartialEq implementations of lists and tables", "impl PartialEq for ... under src/"), ("absence of statics", "src/")],
     {"technique": "effect analysis of every function in the compiler's IR, type-level witness (compile-fail), and bit-precise dataflow analysis for clones and equality"})
prop("C28", "Equality and clones of decoded structures follow what they show",
     "Two decoded headers, capabilities, extended capabilities, list items or decoding errors that compare equal show the same value in every public field, the same items in every list or table and the same base addresses. Whatever can be cloned compares equal to its clone, and the clone shows exactly what the original shows.",
     ["inputs"], "every pair of byte strings decoded as the same structure, of the lengths that select its layouts, and every structure, list item and error type of the library",
     "A comparison that overlooks a field, or a clone that changes one, shows only for pairs that differ in exactly that place.",
     ["src"], [("Clone and PartialEq of headers, capabilities and extended capabilities", "derive(Clone, PartialEq) and impl PartialEq under src/")])
prop("C29", "Lists and tables step consistently however they are walked",
     "For every list and table the library hands out (capability lists, base addresses, entry lists, channel lists, arbitration tables, egress bits, lane settings), skipping ahead with nth, and the next item after it, gives exactly what calling next repeatedly gives. count, last and for_each see exactly the items next yields, and size_hint bounds the number of items still to come from below and above.",
     ["inputs", "histories"], "every content of the data, every number of items taken and skipped within the analysed number of steps",
     "Overridden or wrong iterator methods agree with next on short lists and first items and go wrong for particular skips, which tests do not sample.",
     ["src"], [("Iterator implementations of the list and table types", "impl Iterator for ... under src/")])
prop("C30", "Published constants, default values and orderings are the architected ones",
     "The layout constants the library publishes (offset and length of the device-dependent and extended regions, header sizes, structure and entry sizes, names of BAR sizes) have their architected values. A default register value equals what all-zero bits decode to, and link speeds and link widths order as the speeds and lane counts they stand for.",
     ["inputs"], "every published constant and default value, every pair of defined link speeds and link widths",
     "Tests name few constants and compare no orderings; a shifted constant or a moved variant misleads every user that slices configuration space with it.",
     ["src/lib.rs", "src/header.rs", "src/capabilities.rs", "src/extended_capabilities.rs", "src/capabilities/pci_express.rs", "src/extended_capabilities/resizable_bar.rs"],
     [("published constants", "pub const ... under src/"), ("defaults", "impl Default, derive(Default) of registers"), ("ordering", "derive(PartialOrd, Ord) for LinkSpeed, LinkWidth")])
prop("C31", "Decoding needs no heap, no standard library and no operating system",
     "The library works in a program that has neither the Rust standard library nor a global allocator (firmware, a kernel, a boot loader): it builds and links there with its default features and with its own feature, and nothing it does allocates memory, performs input or output or calls anything its environment would have to provide, apart from the plain memory routines every Rust program needs.",
     ["inputs", "configurations", "programs"], "every path through every decoder, every program the library is linked into, its default features and its own feature",
     "Tests themselves run on std with an allocator, so code that needs either passes all of them.",
     ["src/lib.rs", "src/capabilities.rs", "src/extended_capabilities.rs", "src/header.rs"],
     [("no_std declaration", "src/lib.rs #![no_std]"), ("borrowing iterators instead of collections", "impl Iterator under src/")],
     dict(technique="link-closure analysis: the library is compiled into a no_std program without an allocator (a compile-fail witness) and every symbol it leaves undefined, and every inline-assembly statement in its IR, is judged; nothing is executed",
          level_note="Holds for every input and path, because it judges all code of the library and its dependencies as compiled at the analysed optimisation levels (2; thorough: also 0, 3 and s). Trusts rustc's no_std/allocator checks and the symbol tables it writes. Generic library code is judged as instantiated by the witness program."))
prop("C32", "Decoded values stay usable as long as the data they came from",
     "Whatever is decoded borrows from nothing but the data (and, for capability lists, the header) it was decoded from. Members outlive the list that produced them, nested lists, tables and raw data outlive the structure they were taken from, and headers, errors, structures without raw data and the items of lists and tables outlive the data itself.",
     ["programs"], "every program that keeps a decoded value after the list, structure or data it came from is gone",
     "Tests keep everything alive in one function, so a borrow that is longer than needed compiles in all of them.",
     ["src/capabilities.rs", "src/extended_capabilities.rs", "src/extended_capabilities/virtual_channel.rs", "src/extended_capabilities/access_control_services.rs", "src/extended_capabilities/secondary_pci_express.rs"],
     [("lifetime of the data in the types of lists and tables", "struct ...<'a> and methods returning them under src/")],
     dict(technique="type-level witnesses: functions that only the compiler's borrow checker has to accept; a violating signature or type fails to compile and the rejected witness is reported",
          level_note="The borrow checker decides each witness for all programs of that shape; the witnesses name every public structure, list, table, item and error type. Trusts rustc's type and borrow checker."))
prop("C33", "Results are the same on 32-bit and big-endian machines",
     "What is decoded, derived, iterated and encoded back does not depend on the machine the library is compiled for. Where a machine word has 32 bits, or its bytes are stored in the opposite order, every decoder, list, table, accessor and encoder gives the value or error that the other properties describe for the same bytes, without losing high bits, overflowing or panicking.",
     ["inputs", "configurations"], BYTES + ", on machines with 32-bit words and with big-endian byte order",
     "Tests run on one 64-bit little-endian machine, where native byte order equals the data's and a machine word holds every derived value.",
     ["src/lib.rs", "src/header.rs", "src/header/bar.rs", "src/capabilities.rs", "src/extended_capabilities.rs", "src/extended_capabilities/latency_tolerance_reporting.rs"],
     [("byte order of multi-byte fields", "P3/Lsb conversions, from_le_bytes, Le*(bytes) under src/"), ("width of derived values", "usize arithmetic in accessors under src/")],
     dict(technique="bit-precise dataflow analysis (abstract interpretation with joins at merge points) over the compiler's LLVM IR, lowered for a 32-bit big-endian machine (thorough: also 32-bit little-endian)",
          level_note=NOTE33))
NA = []
