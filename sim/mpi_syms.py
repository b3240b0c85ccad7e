import re,sys
h=open('/usr/lib/x86_64-linux-gnu/openmpi/include/mpi.h').read()
s=sorted(set(re.findall(r'OMPI_PREDEFINED_GLOBAL\(\s*\w+\s*,\s*(\w+)\)',h)))
s=[x for x in s if x.startswith('ompi_')]
print('// generated: storage behind the predefined MPI handles')
for x in s: print(f'__attribute__((aligned(64))) char {x}[256];')
print('const char *const sim_handle_names[]={'+','.join(f'"{x}"' for x in s)+',0};')
print('void *const sim_handle_addrs[]={'+','.join(s)+',0};')
