"""Which functions each reference-model property judges.  units: translation
units parsed; files: where judged functions live; exclude/not: files/functions
left out, with the reason in DESIGN.md."""
GROUPS = {
    'math': dict(units=['^libs/math/', '^libs/core/transform.cpp', '^libs/core/bound.cpp', '^libs/core/geometry/surface.cpp'],
                 files=r'^(include/aqsis|libs)/math/(color|derivatives|math|matrix|matrix2d|region|spline|vec)|^libs/core/(bound|plane)'),
    'noise': dict(units=['^libs/math/'], files=r'^(include/aqsis|libs)/math/(cellnoise|noise|noise1234|random|lowdiscrep)'),
    'quadrics': dict(units=['^libs/core/geometry/(quadrics|surface|teapot)'], files=r'^libs/core/(geometry/(quadrics|surface|teapot)|forwarddiff)'),
    'patches': dict(units=['^libs/core/geometry/(patch|nurbs|polygon|trimcurve)', '^libs/core/api/genpoly'], files=r'^libs/core/(geometry/(patch|nurbs|polygon|trimcurve)|api/genpoly|bilinear)'),
    'curves': dict(units=['^libs/core/geometry/(curves|cubiccurves|linearcurves|points)'], files=r'^libs/core/geometry/(curves|cubiccurves|linearcurves|points|kdtree)'),
    'subdiv': dict(units=['^libs/core/geometry/(subdivision2|lath)'], files=r'^libs/core/geometry/(subdivision2|lath)'),
    'implicit': dict(units=['^libs/core/geometry/(blobby|jules|marching|procedural)'], files=r'^libs/core/geometry/(blobby|jules_bloomenthal|marchingcubes|procedural)'),
    'sampling': dict(units=['^libs/core/(micropolygon|occlusion|bucketprocessor|bucket|multijitter|csgtree|imagepixel|imagebuffer|grid|mpdump)'],
                     files=r'^libs/core/(micropolygon|occlusion|bucketprocessor|bucket|multijitter|csgtree|imagepixel|imagebuffer|grid|clippingvolume|isampler|channelbuffer)'),
    'imaging': dict(units=['^libs/core/(filters|imagers|optioncache)', '^libs/core/ddmanager'], files=r'^libs/core/(filters|imagers|optioncache|ddmanager/ddmanager)'),
    'state': dict(units=['^libs/core/(attributes|options|transform|lights|shaders|renderer|refcount)', '^libs/core/api/(graphicsstate|condition)'],
                  files=r'^libs/core/(attributes|options|transform|lights|shaders|renderer|motion|api/(graphicsstate|condition))'),
    'requests': dict(units=['^libs/core/api/ri.cpp'], files=r'^libs/core/api/ri.cpp'),
    'primvars': dict(units=['^libs/core/parameters', '^libs/core/geometry/(surface|polygon)'], files=r'^libs/core/parameters'),
    'texfilter': dict(units=['^libs/tex/filtering', '^libs/tex/maketexture'], files=r'^(include/aqsis|libs)/tex/(filtering|maketexture)'),
    'teximage': dict(units=['^libs/tex/(buffers|io|pointcloud|maketexture)'], files=r'^(include/aqsis|libs)/tex/(buffers|io|pointcloud)'),
    'texold': dict(streams=1, units=['^libs/core/texturing_old'], files=r'^libs/core/texturing_old'),
    'gi': dict(units=['^libs/pointrender'], files=r'^libs/pointrender'),
    'slcomp': dict(streams=1, units=['^libs/slcomp'], files=r'^(include/aqsis|libs)/slcomp/', exclude='parser|scanner|graphviz|parsetreeviz'),
    'shadervm': dict(units=['^libs/shadervm', '^libs/slxargs'], files=r'^libs/(shadervm/(shadervm|shaderstack|shadervariable|dsoshadeops)|slxargs)'),
    'shadeops': dict(units=['^libs/shadervm/shaderexecenv'], files=r'^libs/shadervm/shaderexecenv'),
    'util': dict(units=['^libs/util'], files=r'^(include/aqsis|libs)/util/', exclude='tinyformat|timer|logging'),
    'riutil': dict(units=['^libs/riutil', '^libs/ri2rib'], files=r'^(include/aqsis/riutil|libs/riutil|libs/ri2rib)'),
    'tools': dict(streams=1, units=['^tools/(aqsis|aqsl|aqsltell|teqser|miqser|eqsl|displays|dbo|piqsl|shadeops)'], files=r'^tools/', exclude='win32'),
    'hairgen': dict(units=['^tools/procedurals'], files=r'^tools/procedurals'),
    # pseudo: the grammar and scanner actions as functions of their own
    'grammar': dict(**{'not': '^yy|scannerinput'}, units=['^libs/slcomp/parse/(parser|scanner|libslparse).cpp'], files=r'^libs/slcomp/parse/(parser|scanner)\.(cpp|yy|ll)$', pseudo=1,
                    inline=r'^libs/slcomp/parse/(parser|scanner).cpp$'),
    'logs': dict(units=['^libs/util/logging', '^libs/core/(api/rif|refcount|mpdump|stats|threadscheduler)', '^libs/core/ddmanager/debugdd'],
                 files=r'^(include/aqsis|libs)/util/logging|^libs/core/(api/rif|refcount|mpdump|stats|threadscheduler|ddmanager/debugdd)'),
}

# properties decided by rules of their own: the functions they rest on are also
# compared with their reference graphs (group, files, functions)
ALSO = {
    'C01': [('riutil', 'riutil/(ricxx_filter|tee_filter|framedrop_filter)', None)],
    'C02': [('riutil', 'riutil/ricxx_validate', 'Scope|Begin$|End$|ElseIf$|Else$|RiCxxValidate::RiCxxValidate')],
    'C03': [('riutil', 'riutil/(ricxx_validate|interpclasscounts|primvartype)', None)],
    'C04': [('riutil', 'riutil/(ribparser|riblexer|ribinputbuffer|ribtoken)', None)],
    'C05': [('riutil', 'riutil/(ribwriter|multistringbuffer)', None)],
    'C06': [('riutil', 'riutil/(renderutil_filter|ricxx_cache|multistringbuffer)', None)],
    'C07': [('riutil', 'riutil/ri2ricxx|ri2rib/', None)],
    'C08': [('riutil', 'riutil/ri2ricxx', None)],
    'C09': [('riutil', 'riutil/(ribparser|riblexer|ribtokenizer|ribinputbuffer)', 'RibParser::|RibParserImpl::(parse|RibParserImpl|next|get|read)|RibLexer|RibTokenizer|RibInputBuffer')],
    'C10': [('riutil', 'riutil/(ribtokenizer|ribtoken|ribwriter)', 'RibToken|RibInputBuffer|Formatter|RibWriter::RibWriter|createRibWriter')],
    'C11': [('riutil', 'riutil/renderutil_filter', None)],
    'C12': [('riutil', 'riutil/(riblexer|multistringbuffer|ribtoken)', None)],
    'C13': [('shadervm', 'shadervm/shadervm(1|2)?\\.', None)],
    'C14': [('shadervm', 'shadervm/(shaderstack|shadervm(1|2)?\\.)', None)],
    'C15': [('shadeops', 'shaderexecenv', None)],
    'C16': [('shadeops', 'shaderexecenv', None)],
}
