import re
P={'hdr':('C08','src/header.rs'),'bars_back':('C26','src/header/bar.rs'),'bars':('C09','src/header/bar.rs'),'class':('C10','src/header/class_code.rs'),
'pm_':('C13','src/capabilities/power_management_interface.rs'),'sata':('C13','src/capabilities/sata.rs'),'pcix':('C13','src/capabilities/pci_x.rs'),
'msi_':('C12','src/capabilities/message_signaled_interrups.rs'),'ht_':('C14','src/capabilities/hypertransport.rs'),'pcie_':('C11','src/capabilities/pci_express.rs'),
'dpc':('C17','src/extended_capabilities/downstream_port_containment.rs'),'ltr':('C21','src/extended_capabilities/latency_tolerance_reporting.rs'),
'l1pm':('C21','src/extended_capabilities/l1_pm_substates.rs'),'rtr':('C21','src/extended_capabilities/readiness_time_reporting.rs'),'pb_':('C21','src/extended_capabilities/power_budgeting.rs'),
'rebar':('C22','src/extended_capabilities/resizable_bar.rs'),'vc_':('C18','src/extended_capabilities/virtual_channel.rs'),'mfvc':('C18','src/extended_capabilities/multifunction_virtual_channel.rs'),
'acs':('C19','src/extended_capabilities/access_control_services.rs'),'lane':('C25','src/extended_capabilities/secondary_pci_express.rs'),'pmux':('C25','src/extended_capabilities/protocol_multiplexing.rs'),
'link':('C23','src/extended_capabilities/root_complex_link_declaration.rs'),'cxl':('C24','src/extended_capabilities/designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device.rs'),
'ecap_':('C06','src/extended_capabilities.rs'),'rt_':('C26',None),'ea_':('C16','src/capabilities/enhanced_allocation.rs'),'dpa':('C21','src/extended_capabilities/dynamic_power_allocation.rs'),'tph':('C20','src/extended_capabilities/tph_requester.rs'),
}
s=open('/verif/harness/src/access.rs').read()
out=['// Written by tools/gen_access.py from the pairs in harness/src/access.rs']
for m in re.finditer(r'\w+! \{ root_x_(\w+) want_x_(\w+)(?: src (\S+))?',s):
    assert m[1]==m[2]
    n=m[1]
    for k,v in P.items():
        if n.startswith(k): break
    else: raise SystemExit('no prop for '+n)
    src=v[1]
    if not src:
        mm=re.search(r'// src (\S+)[^/]*?root_x_'+n+r'\b',s,re.S) 
        src=None
        for q in re.finditer(r'// src (\S+)',s[:m.start()]): src=q[1]
    ORDER={'rebar_power':'s2:64'}
    out.append(f'root root_x_{n} same want_x_{n} : {v[0]} C01'); out.append(f'  src {src}')
    if n in ORDER: out.append('  order '+ORDER[n])
out+=['root root_f_ea same want_f_ea : C16F','  src src/capabilities/enhanced_allocation.rs']
open('/verif/spec/access.spec','w').write('\n'.join(out)+'\n')
