// Display driver of the rendering checks: writes down every call it receives, verbatim.
//   u32 'D','S','P','1'; then records, each: u32 kind
//   kind 1 open: w h nparam {name type count bytes} nformat {name type}
//   kind 2 data: xmin xmax ymin ymax entrysize bytes
//   kind 3 close
#include <aqsis/ri/ndspy.h>
#include <string>
#include <cstring>
#include <vector>
namespace {
struct H { FILE* f; };
void u32(FILE* f, unsigned v) { fwrite(&v, 4, 1, f); }
void str(FILE* f, const char* s) { unsigned n = s ? strlen(s) : 0; u32(f, n); if(n) fwrite(s, 1, n, f); }
}
extern "C" {
AQSIS_EXPORT PtDspyError DspyImageOpen(PtDspyImageHandle* image, const char*, const char* filename, int width, int height,
    int paramCount, const UserParameter* p, int nf, PtDspyDevFormat* format, PtFlagStuff* flags)
{
    *image = 0; if(strstr(filename, "refused")) return PkDspyErrorNoResource;
    int scan = 0;
    for(int i = 0; i < paramCount; ++i)
        if(p[i].name && !strcmp(p[i].name, "scanline") && p[i].vtype == 'i') scan = *(int*)p[i].value;
    flags->flags = scan ? PkDspyFlagsWantsScanLineOrder : 0;
    FILE* f = fopen(filename, "wb");
    if(!f) return PkDspyErrorNoResource;
    fwrite("DSP1", 1, 4, f);
    u32(f, 1); u32(f, width); u32(f, height); u32(f, paramCount);
    for(int i = 0; i < paramCount; ++i)
    {
        str(f, p[i].name); u32(f, p[i].vtype); u32(f, (unsigned char)p[i].vcount);
        if(p[i].vtype == 's')
        {
            std::string all; for(int k = 0; k < p[i].vcount; ++k) { all += ((char**)p[i].value)[k]; all += '\0'; }
            u32(f, all.size()); fwrite(all.data(), 1, all.size(), f);
        }
        else { u32(f, p[i].nbytes); fwrite(p[i].value, 1, p[i].nbytes, f); }
    }
    u32(f, nf);
    for(int i = 0; i < nf; ++i) { str(f, format[i].name); u32(f, format[i].type); }
    H* h = new H; h->f = f; *image = h;
    return PkDspyErrorNone;
}
AQSIS_EXPORT PtDspyError DspyImageQuery(PtDspyImageHandle, PtDspyQueryType t, size_t n, void* d)
{
    if(t == PkSizeQuery) { PtDspySizeInfo s = {0, 0, 1.0f}; memcpy(d, &s, n < sizeof s ? n : sizeof s); return PkDspyErrorNone; }
    return PkDspyErrorUnsupported;
}
AQSIS_EXPORT PtDspyError DspyImageData(PtDspyImageHandle im, int xmin, int xmax, int ymin, int ymax, int es, const unsigned char* data)
{
    FILE* f = ((H*)im)->f;
    u32(f, 2); u32(f, xmin); u32(f, xmax); u32(f, ymin); u32(f, ymax); u32(f, es);
    if(xmax > xmin && ymax > ymin) fwrite(data, es, (size_t)(xmax-xmin)*(ymax-ymin), f);
    return PkDspyErrorNone;
}
AQSIS_EXPORT PtDspyError DspyImageDelayClose(PtDspyImageHandle im)
{
    if(!im) return PkDspyErrorNone;
    u32(((H*)im)->f, 3); fclose(((H*)im)->f); delete (H*)im;
    return PkDspyErrorNone;
}
AQSIS_EXPORT PtDspyError DspyImageClose(PtDspyImageHandle im) { return DspyImageDelayClose(im); }
}
