CONF={
 'C01':dict(opt='-O2',san=False),
 'C02':dict(opt='-O2'),
 'C03':dict(opt='-O2',san=False),
 'S02':dict(parts=3,opt='-O2'),
 'S03':dict(flags=['-fsanitize=bounds','-fno-sanitize-recover=bounds']),
 'S07':dict(parts=9),
 'S09':dict(parts=6),
}
CONF.update({'P%02d'%i:dict(opt='-O2') for i in range(1,7)})
CONF['P01'].update(san=False); CONF['P02'].update(san=False)
CONF['P03'].update(san=False)
CONF['P04'].update(san=False,src=['P04.cpp','P04_98.cpp'],std={'P04_98.cpp':'gnu++98'}) # the library is built as C++98
for i in ('W01','W02','W03'): CONF[i]=dict(src=[i+'.cpp','printers.cpp'],parts=8)
WRAP=['-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free']
CONF['X04']=dict(flags=WRAP)
CONF['X05']=dict(flags=WRAP)
CONF['X03']=dict(flags=WRAP,san=False)
CONF['X06']=dict(src=['X06.cpp','race.cpp'],san=False,cflags=['-fsanitize=thread','-fno-builtin','-D_GLIBCXX_EXTERN_TEMPLATE=0'],flags=['-rdynamic','-pthread']+['-Wl,--wrap=%s'%x for x in ('malloc','calloc','realloc','free','__cxa_guard_acquire','__cxa_guard_release','__cxa_guard_abort','memcpy','memmove','memset','memcmp','memchr','strlen','strcmp')])
CONF['X07']=dict(san=False,cflags=['-fsanitize-coverage=trace-pc','-fno-builtin','-U_FORTIFY_SOURCE','-D_GLIBCXX_EXTERN_TEMPLATE=0'],flags=['-Wl,--wrap=%s'%x for x in ('memcpy','memmove','memset','memcmp','memchr','strlen')])
