// Generated by meta/mkrigen.py from the interface description; committed as a fixed specification.
#ifdef RI_GEN_TABLE
static const Proc procTable[] = {
{"Declare","Outside,BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"name","s","","",""},{"declaration","s","","",""}},""},
{"FrameBegin","BeginEnd,Archive",{{"number","i","","",""}},""},
{"FrameEnd","Frame,Archive",{},""},
{"WorldBegin","BeginEnd,Frame,Archive",{},""},
{"WorldEnd","World,Archive",{},""},
{"IfBegin","*",{{"condition","s","","",""}},""},
{"ElseIf","*",{{"condition","s","","",""}},""},
{"Else","*",{},""},
{"IfEnd","*",{},""},
{"Format","BeginEnd,Frame,Archive",{{"xresolution","i","ne 0;","",""},{"yresolution","i","ne 0;","",""},{"pixelaspectratio","f","ne 0;","",""}},""},
{"FrameAspectRatio","BeginEnd,Frame,Archive",{{"frameratio","f","gt 0;","",""}},""},
{"ScreenWindow","BeginEnd,Frame,Archive",{{"left","f","lt right;","",""},{"right","f","","",""},{"bottom","f","lt top;","",""},{"top","f","","",""}},""},
{"CropWindow","BeginEnd,Frame,Archive",{{"xmin","f","ge 0;lt xmax;","",""},{"xmax","f","le 1;","",""},{"ymin","f","ge 0;lt ymax;","",""},{"ymax","f","le 1;","",""}},""},
{"Projection","BeginEnd,Frame,Archive",{{"name","s","","",""},{"pList","L","","","opt"}},""},
{"Clipping","BeginEnd,Frame,Archive",{{"cnear","f","ge RI_EPSILON;","",""},{"cfar","f","gt cnear;","",""}},""},
{"ClippingPlane","*",{{"x","f","","",""},{"y","f","","",""},{"z","f","","",""},{"nx","f","","",""},{"ny","f","","",""},{"nz","f","","",""}},""},
{"DepthOfField","BeginEnd,Frame,Archive",{{"fstop","f","gt 0;","",""},{"focallength","f","gt 0;","",""},{"focaldistance","f","gt 0;","",""}},""},
{"Shutter","BeginEnd,Frame,Archive",{{"opentime","f","le closetime;","",""},{"closetime","f","","",""}},""},
{"PixelVariance","BeginEnd,Frame,Archive",{{"variance","f","ge 0;","",""}},""},
{"PixelSamples","BeginEnd,Frame,Archive",{{"xsamples","f","ge 1;","",""},{"ysamples","f","ge 1;","",""}},""},
{"PixelFilter","BeginEnd,Frame,Archive",{{"function","X","","",""},{"xwidth","f","gt 0;","",""},{"ywidth","f","gt 0;","",""}},""},
{"Exposure","BeginEnd,Frame,Archive",{{"gain","f","gt 0;","",""},{"gamma","f","gt 0;","",""}},""},
{"Imager","BeginEnd,Frame,Archive",{{"name","s","","",""},{"pList","L","","","opt"}},""},
{"Quantize","BeginEnd,Frame,Archive",{{"type","s","","",""},{"one","i","ge 0;","",""},{"min","i","le max;","",""},{"max","i","","",""},{"ditheramplitude","f","ge 0;","",""}},""},
{"Display","BeginEnd,Frame,Archive",{{"name","s","","",""},{"type","s","","",""},{"mode","s","","",""},{"pList","L","","","opt"}},""},
{"Hider","BeginEnd,Frame,Archive",{{"name","s","","",""},{"pList","L","","","opt"}},""},
{"ColorSamples","BeginEnd,Frame,Archive",{{"nRGB","F","","",""},{"RGBn","F","","size(nRGB)",""}},""},
{"RelativeDetail","BeginEnd,Frame,Archive",{{"relativedetail","f","ge 0;","",""}},""},
{"Option","BeginEnd,Frame,Archive",{{"name","s","","",""},{"pList","L","","",""}},""},
{"AttributeBegin","World,Attribute,Transform,Solid,Object,Archive",{},""},
{"AttributeEnd","Attribute,Archive",{},""},
{"Color","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"Cq","c","","",""}},""},
{"Opacity","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"Os","c","","",""}},""},
{"TextureCoordinates","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"s1","f","","",""},{"t1","f","","",""},{"s2","f","","",""},{"t2","f","","",""},{"s3","f","","",""},{"t3","f","","",""},{"s4","f","","",""},{"t4","f","","",""}},""},
{"LightSource","BeginEnd,Frame,World,Attribute,Transform,Solid,Motion,Archive",{{"shadername","s","","",""},{"name","s","","",""},{"pList","L","","","opt"}},""},
{"AreaLightSource","BeginEnd,Frame,World,Attribute,Transform,Solid,Motion,Archive",{{"shadername","s","","",""},{"name","s","","",""},{"pList","L","","","opt"}},""},
{"Illuminate","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"name","s","","",""},{"onoff","i","","",""}},""},
{"Surface","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"name","s","","",""},{"pList","L","","","opt"}},""},
{"Displacement","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"name","s","","",""},{"pList","L","","","opt"}},""},
{"Atmosphere","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"name","s","","",""},{"pList","L","","","opt"}},""},
{"Interior","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"name","s","","",""},{"pList","L","","","opt"}},""},
{"Exterior","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"name","s","","",""},{"pList","L","","","opt"}},""},
{"ShaderLayer","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"type","s","","",""},{"name","s","","",""},{"layername","s","","",""},{"pList","L","","","opt"}},""},
{"ConnectShaderLayers","*",{{"type","s","","",""},{"layer1","s","","",""},{"variable1","s","","",""},{"layer2","s","","",""},{"variable2","s","","",""}},""},
{"ShadingRate","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"size","f","gt 0;","",""}},""},
{"ShadingInterpolation","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"type","s","","",""}},""},
{"Matte","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"onoff","i","","",""}},""},
{"Bound","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"bound","b","","",""}},""},
{"Detail","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"bound","b","","",""}},""},
{"DetailRange","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"offlow","f","le onlow;","",""},{"onlow","f","le onhigh;","",""},{"onhigh","f","le offhigh;","",""},{"offhigh","f","","",""}},""},
{"GeometricApproximation","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"type","s","","",""},{"value","f","ge 0;","",""}},""},
{"Orientation","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"orientation","s","","",""}},""},
{"ReverseOrientation","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{},""},
{"Sides","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"nsides","i","","",""}},""},
{"Identity","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{},""},
{"Transform","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"transform","m","","",""}},""},
{"ConcatTransform","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"transform","m","","",""}},""},
{"Perspective","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"fov","f","gt 0;","",""}},""},
{"Translate","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"dx","f","","",""},{"dy","f","","",""},{"dz","f","","",""}},""},
{"Rotate","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"angle","f","","",""},{"dx","f","","",""},{"dy","f","","",""},{"dz","f","","",""}},""},
{"Scale","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"sx","f","","",""},{"sy","f","","",""},{"sz","f","","",""}},""},
{"Skew","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"angle","f","","",""},{"dx1","f","","",""},{"dy1","f","","",""},{"dz1","f","","",""},{"dx2","f","","",""},{"dy2","f","","",""},{"dz2","f","","",""}},""},
{"CoordinateSystem","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Archive",{{"space","s","","",""}},""},
{"CoordSysTransform","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"space","s","","",""}},""},
{"TransformBegin","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Archive",{},""},
{"TransformEnd","Transform,Archive",{},""},
{"Resource","*",{{"handle","s","","",""},{"type","s","","",""},{"pList","L","","",""}},""},
{"ResourceBegin","*",{},""},
{"ResourceEnd","*",{},""},
{"Attribute","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"name","s","","",""},{"pList","L","","",""}},""},
{"Polygon","World,Attribute,Transform,Solid,Object,Motion,Archive",{{"pList","L","","",""}},"Varying=countP(pList)"},
{"GeneralPolygon","World,Attribute,Transform,Solid,Object,Motion,Archive",{{"nverts","I","","",""},{"pList","L","","",""}},"Varying=sum(nverts)"},
{"PointsPolygons","World,Attribute,Transform,Solid,Object,Motion,Archive",{{"nverts","I","","",""},{"verts","I","","sum(nverts)",""},{"pList","L","","",""}},"Uniform=size(nverts);Varying=max(verts)+1;FaceVarying=sum(nverts)"},
{"PointsGeneralPolygons","World,Attribute,Transform,Solid,Object,Motion,Archive",{{"nloops","I","","",""},{"nverts","I","","sum(nloops)",""},{"verts","I","","sum(nverts)",""},{"pList","L","","",""}},"Uniform=size(nloops);Varying=max(verts)+1;FaceVarying=sum(nverts)"},
{"Basis","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"ubasis","m","","",""},{"ustep","i","gt 0;","",""},{"vbasis","m","","",""},{"vstep","i","gt 0;","",""}},""},
{"Patch","World,Attribute,Transform,Solid,Object,Motion,Archive",{{"type","s","","",""},{"pList","L","","",""}},"Varying=4;Vertex=strcmp(type,'bilinear')==0 ? 4 : 16"},
{"PatchMesh","World,Attribute,Transform,Solid,Object,Motion,Archive",{{"type","s","","",""},{"nu","i","gt 0;","",""},{"uwrap","s","","",""},{"nv","i","gt 0;","",""},{"vwrap","s","","",""},{"pList","L","","",""}},"ComplicatedCustomImpl=None"},
{"NuPatch","World,Attribute,Transform,Solid,Object,Motion,Archive",{{"nu","i","gt 0;","",""},{"uorder","i","gt 0;","",""},{"uknot","F","","nu+uorder",""},{"umin","f","lt umax;","",""},{"umax","f","","",""},{"nv","i","gt 0;","",""},{"vorder","i","gt 0;","",""},{"vknot","F","","nv+vorder",""},{"vmin","f","lt vmax;","",""},{"vmax","f","","",""},{"pList","L","","",""}},"Uniform=(1+nu-uorder+1)*(1+nv-vorder+1);Varying=(1+nu-uorder+1)*(1+nv-vorder+1);Vertex=nu*nv"},
{"TrimCurve","World,Attribute,Transform,Solid,Object,Motion,Archive",{{"ncurves","I","","",""},{"order","I","","sum(ncurves)",""},{"knot","F","","sum(order)+sum(n)",""},{"min","F","","size(order)",""},{"max","F","","size(order)",""},{"n","I","","size(order)",""},{"u","F","","sum(n)",""},{"v","F","","size(u)",""},{"w","F","","size(u)",""}},""},
{"SubdivisionMesh","World,Attribute,Transform,Solid,Object,Motion,Archive",{{"scheme","s","","",""},{"nvertices","I","","",""},{"vertices","I","","sum(nvertices)",""},{"tags","S","","",""},{"nargs","I","","2*size(tags)",""},{"intargs","I","","sum(nargs,0,2)",""},{"floatargs","F","","sum(nargs,1,2)",""},{"pList","L","","",""}},"Uniform=size(nvertices);Varying=max(vertices)+1;FaceVarying=sum(nvertices)"},
{"Sphere","World,Attribute,Transform,Solid,Object,Motion,Archive",{{"radius","f","ne 0;","",""},{"zmin","f","lt zmax;","",""},{"zmax","f","","",""},{"thetamax","f","ne 0;","",""},{"pList","L","","","opt"}},"Varying=4"},
{"Cone","World,Attribute,Transform,Solid,Object,Motion,Archive",{{"height","f","","",""},{"radius","f","ne 0;","",""},{"thetamax","f","ne 0;","",""},{"pList","L","","","opt"}},"Varying=4"},
{"Cylinder","World,Attribute,Transform,Solid,Object,Motion,Archive",{{"radius","f","ne 0;","",""},{"zmin","f","ne zmax;","",""},{"zmax","f","","",""},{"thetamax","f","ne 0;","",""},{"pList","L","","","opt"}},"Varying=4"},
{"Hyperboloid","World,Attribute,Transform,Solid,Object,Motion,Archive",{{"point1","p","","",""},{"point2","p","","",""},{"thetamax","f","ne 0;","",""},{"pList","L","","","opt"}},"Varying=4"},
{"Paraboloid","World,Attribute,Transform,Solid,Object,Motion,Archive",{{"rmax","f","ne 0;","",""},{"zmin","f","ne zmax;","",""},{"zmax","f","","",""},{"thetamax","f","ne 0;","",""},{"pList","L","","","opt"}},"Varying=4"},
{"Disk","World,Attribute,Transform,Solid,Object,Motion,Archive",{{"height","f","","",""},{"radius","f","ne 0;","",""},{"thetamax","f","ne 0;","",""},{"pList","L","","","opt"}},"Varying=4"},
{"Torus","World,Attribute,Transform,Solid,Object,Motion,Archive",{{"majorrad","f","ne 0;","",""},{"minorrad","f","ne 0;","",""},{"phimin","f","ne phimax;","",""},{"phimax","f","","",""},{"thetamax","f","ne 0;","",""},{"pList","L","","","opt"}},"Varying=4"},
{"Points","World,Attribute,Transform,Solid,Object,Motion,Archive",{{"pList","L","","",""}},"Varying=countP(pList)"},
{"Curves","World,Attribute,Transform,Solid,Object,Motion,Archive",{{"type","s","","",""},{"nvertices","I","","",""},{"wrap","s","","",""},{"pList","L","","",""}},"ComplicatedCustomImpl=None"},
{"Blobby","World,Attribute,Transform,Solid,Object,Motion,Archive",{{"nleaf","i","","",""},{"code","I","","",""},{"floats","F","","",""},{"strings","S","","",""},{"pList","L","","","opt"}},"Varying=nleaf"},
{"Procedural","World,Attribute,Transform,Solid,Object,Archive",{{"data","?","","",""},{"bound","b","","",""},{"refineproc","?","","",""},{"freeproc","?","","",""}},""},
{"Geometry","World,Attribute,Transform,Solid,Object,Archive",{{"type","s","","",""},{"pList","L","","","opt"}},"ComplicatedCustomImpl=None"},
{"SolidBegin","World,Attribute,Transform,Solid,Object,Archive",{{"type","s","","",""}},""},
{"SolidEnd","Solid,Archive",{},""},
{"ObjectBegin","BeginEnd,Frame,World,Attribute,Transform,Solid,Archive",{{"name","s","","",""}},""},
{"ObjectEnd","Object,Archive",{},""},
{"ObjectInstance","World,Attribute,Transform,Solid,Object,Archive",{{"name","s","","",""}},""},
{"MotionBegin","BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Archive",{{"times","F","","",""}},""},
{"MotionEnd","Motion,Archive",{},""},
{"MakeTexture","BeginEnd,Frame,Archive",{{"imagefile","s","","",""},{"texturefile","s","","",""},{"swrap","s","","",""},{"twrap","s","","",""},{"filterfunc","X","","",""},{"swidth","f","ge 1;","",""},{"twidth","f","ge 1;","",""},{"pList","L","","","opt"}},""},
{"MakeLatLongEnvironment","BeginEnd,Frame,Archive",{{"imagefile","s","","",""},{"reflfile","s","","",""},{"filterfunc","X","","",""},{"swidth","f","ge 1;","",""},{"twidth","f","ge 1;","",""},{"pList","L","","","opt"}},""},
{"MakeCubeFaceEnvironment","BeginEnd,Frame,Archive",{{"px","s","","",""},{"nx","s","","",""},{"py","s","","",""},{"ny","s","","",""},{"pz","s","","",""},{"nz","s","","",""},{"reflfile","s","","",""},{"fov","f","","",""},{"filterfunc","X","","",""},{"swidth","f","ge 1;","",""},{"twidth","f","ge 1;","",""},{"pList","L","","","opt"}},""},
{"MakeShadow","BeginEnd,Frame,Archive",{{"picfile","s","","",""},{"shadowfile","s","","",""},{"pList","L","","","opt"}},""},
{"MakeOcclusion","BeginEnd,Frame,Archive",{{"picfiles","S","","",""},{"shadowfile","s","","",""},{"pList","L","","","opt"}},""},
{"ErrorHandler","Outside,BeginEnd,Frame,World,Attribute,Transform,Solid,Object,Motion,Archive",{{"handler","E","","",""}},""},
{"ReadArchive","*",{{"name","s","","",""},{"callback","A","","",""},{"pList","L","","","opt"}},""},
{"ArchiveBegin","*",{{"name","s","","",""},{"pList","L","","","opt"}},""},
{"ArchiveEnd","Archive",{},""}
};
#endif
#ifdef RI_GEN_RECORDER
    virtual RtVoid Declare(RtConstString name, RtConstString declaration) { Call c("Declare"); c.S1(name); c.S1(declaration); add(c); }
    virtual RtVoid FrameBegin(RtInt number) { Call c("FrameBegin"); c.I1(number); add(c); }
    virtual RtVoid FrameEnd() { Call c("FrameEnd");  add(c); }
    virtual RtVoid WorldBegin() { Call c("WorldBegin");  add(c); }
    virtual RtVoid WorldEnd() { Call c("WorldEnd");  add(c); }
    virtual RtVoid IfBegin(RtConstString condition) { Call c("IfBegin"); c.S1(condition); add(c); }
    virtual RtVoid ElseIf(RtConstString condition) { Call c("ElseIf"); c.S1(condition); add(c); }
    virtual RtVoid Else() { Call c("Else");  add(c); }
    virtual RtVoid IfEnd() { Call c("IfEnd");  add(c); }
    virtual RtVoid Format(RtInt xresolution, RtInt yresolution, RtFloat pixelaspectratio) { Call c("Format"); c.I1(xresolution); c.I1(yresolution); c.F1(pixelaspectratio); add(c); }
    virtual RtVoid FrameAspectRatio(RtFloat frameratio) { Call c("FrameAspectRatio"); c.F1(frameratio); add(c); }
    virtual RtVoid ScreenWindow(RtFloat left, RtFloat right, RtFloat bottom, RtFloat top) { Call c("ScreenWindow"); c.F1(left); c.F1(right); c.F1(bottom); c.F1(top); add(c); }
    virtual RtVoid CropWindow(RtFloat xmin, RtFloat xmax, RtFloat ymin, RtFloat ymax) { Call c("CropWindow"); c.F1(xmin); c.F1(xmax); c.F1(ymin); c.F1(ymax); add(c); }
    virtual RtVoid Projection(RtConstToken name, const ParamList& pList) { Call c("Projection"); c.S1(name); c.PL(pList); add(c); }
    virtual RtVoid Clipping(RtFloat cnear, RtFloat cfar) { Call c("Clipping"); c.F1(cnear); c.F1(cfar); add(c); }
    virtual RtVoid ClippingPlane(RtFloat x, RtFloat y, RtFloat z, RtFloat nx, RtFloat ny, RtFloat nz) { Call c("ClippingPlane"); c.F1(x); c.F1(y); c.F1(z); c.F1(nx); c.F1(ny); c.F1(nz); add(c); }
    virtual RtVoid DepthOfField(RtFloat fstop, RtFloat focallength, RtFloat focaldistance) { Call c("DepthOfField"); c.F1(fstop); c.F1(focallength); c.F1(focaldistance); add(c); }
    virtual RtVoid Shutter(RtFloat opentime, RtFloat closetime) { Call c("Shutter"); c.F1(opentime); c.F1(closetime); add(c); }
    virtual RtVoid PixelVariance(RtFloat variance) { Call c("PixelVariance"); c.F1(variance); add(c); }
    virtual RtVoid PixelSamples(RtFloat xsamples, RtFloat ysamples) { Call c("PixelSamples"); c.F1(xsamples); c.F1(ysamples); add(c); }
    virtual RtVoid PixelFilter(RtFilterFunc function, RtFloat xwidth, RtFloat ywidth) { Call c("PixelFilter"); c.S1(filterName(function)); c.F1(xwidth); c.F1(ywidth); add(c); }
    virtual RtVoid Exposure(RtFloat gain, RtFloat gamma) { Call c("Exposure"); c.F1(gain); c.F1(gamma); add(c); }
    virtual RtVoid Imager(RtConstToken name, const ParamList& pList) { Call c("Imager"); c.S1(name); c.PL(pList); add(c); }
    virtual RtVoid Quantize(RtConstToken type, RtInt one, RtInt min, RtInt max, RtFloat ditheramplitude) { Call c("Quantize"); c.S1(type); c.I1(one); c.I1(min); c.I1(max); c.F1(ditheramplitude); add(c); }
    virtual RtVoid Display(RtConstToken name, RtConstToken type, RtConstToken mode, const ParamList& pList) { Call c("Display"); c.S1(name); c.S1(type); c.S1(mode); c.PL(pList); add(c); }
    virtual RtVoid Hider(RtConstToken name, const ParamList& pList) { Call c("Hider"); c.S1(name); c.PL(pList); add(c); }
    virtual RtVoid ColorSamples(const FloatArray& nRGB, const FloatArray& RGBn) { Call c("ColorSamples"); c.FA(nRGB); c.FA(RGBn); add(c); }
    virtual RtVoid RelativeDetail(RtFloat relativedetail) { Call c("RelativeDetail"); c.F1(relativedetail); add(c); }
    virtual RtVoid Option(RtConstToken name, const ParamList& pList) { Call c("Option"); c.S1(name); c.PL(pList); add(c); }
    virtual RtVoid AttributeBegin() { Call c("AttributeBegin");  add(c); }
    virtual RtVoid AttributeEnd() { Call c("AttributeEnd");  add(c); }
    virtual RtVoid Color(RtConstColor Cq) { Call c("Color"); c.FN(Cq,3); add(c); }
    virtual RtVoid Opacity(RtConstColor Os) { Call c("Opacity"); c.FN(Os,3); add(c); }
    virtual RtVoid TextureCoordinates(RtFloat s1, RtFloat t1, RtFloat s2, RtFloat t2, RtFloat s3, RtFloat t3, RtFloat s4, RtFloat t4) { Call c("TextureCoordinates"); c.F1(s1); c.F1(t1); c.F1(s2); c.F1(t2); c.F1(s3); c.F1(t3); c.F1(s4); c.F1(t4); add(c); }
    virtual RtVoid LightSource(RtConstToken shadername, RtConstToken name, const ParamList& pList) { Call c("LightSource"); c.S1(shadername); c.S1(name); c.PL(pList); add(c); }
    virtual RtVoid AreaLightSource(RtConstToken shadername, RtConstToken name, const ParamList& pList) { Call c("AreaLightSource"); c.S1(shadername); c.S1(name); c.PL(pList); add(c); }
    virtual RtVoid Illuminate(RtConstToken name, RtBoolean onoff) { Call c("Illuminate"); c.S1(name); c.I1(onoff); add(c); }
    virtual RtVoid Surface(RtConstToken name, const ParamList& pList) { Call c("Surface"); c.S1(name); c.PL(pList); add(c); }
    virtual RtVoid Displacement(RtConstToken name, const ParamList& pList) { Call c("Displacement"); c.S1(name); c.PL(pList); add(c); }
    virtual RtVoid Atmosphere(RtConstToken name, const ParamList& pList) { Call c("Atmosphere"); c.S1(name); c.PL(pList); add(c); }
    virtual RtVoid Interior(RtConstToken name, const ParamList& pList) { Call c("Interior"); c.S1(name); c.PL(pList); add(c); }
    virtual RtVoid Exterior(RtConstToken name, const ParamList& pList) { Call c("Exterior"); c.S1(name); c.PL(pList); add(c); }
    virtual RtVoid ShaderLayer(RtConstToken type, RtConstToken name, RtConstToken layername, const ParamList& pList) { Call c("ShaderLayer"); c.S1(type); c.S1(name); c.S1(layername); c.PL(pList); add(c); }
    virtual RtVoid ConnectShaderLayers(RtConstToken type, RtConstToken layer1, RtConstToken variable1, RtConstToken layer2, RtConstToken variable2) { Call c("ConnectShaderLayers"); c.S1(type); c.S1(layer1); c.S1(variable1); c.S1(layer2); c.S1(variable2); add(c); }
    virtual RtVoid ShadingRate(RtFloat size) { Call c("ShadingRate"); c.F1(size); add(c); }
    virtual RtVoid ShadingInterpolation(RtConstToken type) { Call c("ShadingInterpolation"); c.S1(type); add(c); }
    virtual RtVoid Matte(RtBoolean onoff) { Call c("Matte"); c.I1(onoff); add(c); }
    virtual RtVoid Bound(RtConstBound bound) { Call c("Bound"); c.FN(bound,6); add(c); }
    virtual RtVoid Detail(RtConstBound bound) { Call c("Detail"); c.FN(bound,6); add(c); }
    virtual RtVoid DetailRange(RtFloat offlow, RtFloat onlow, RtFloat onhigh, RtFloat offhigh) { Call c("DetailRange"); c.F1(offlow); c.F1(onlow); c.F1(onhigh); c.F1(offhigh); add(c); }
    virtual RtVoid GeometricApproximation(RtConstToken type, RtFloat value) { Call c("GeometricApproximation"); c.S1(type); c.F1(value); add(c); }
    virtual RtVoid Orientation(RtConstToken orientation) { Call c("Orientation"); c.S1(orientation); add(c); }
    virtual RtVoid ReverseOrientation() { Call c("ReverseOrientation");  add(c); }
    virtual RtVoid Sides(RtInt nsides) { Call c("Sides"); c.I1(nsides); add(c); }
    virtual RtVoid Identity() { Call c("Identity");  add(c); }
    virtual RtVoid Transform(RtConstMatrix transform) { Call c("Transform"); c.FN(&transform[0][0],16); add(c); }
    virtual RtVoid ConcatTransform(RtConstMatrix transform) { Call c("ConcatTransform"); c.FN(&transform[0][0],16); add(c); }
    virtual RtVoid Perspective(RtFloat fov) { Call c("Perspective"); c.F1(fov); add(c); }
    virtual RtVoid Translate(RtFloat dx, RtFloat dy, RtFloat dz) { Call c("Translate"); c.F1(dx); c.F1(dy); c.F1(dz); add(c); }
    virtual RtVoid Rotate(RtFloat angle, RtFloat dx, RtFloat dy, RtFloat dz) { Call c("Rotate"); c.F1(angle); c.F1(dx); c.F1(dy); c.F1(dz); add(c); }
    virtual RtVoid Scale(RtFloat sx, RtFloat sy, RtFloat sz) { Call c("Scale"); c.F1(sx); c.F1(sy); c.F1(sz); add(c); }
    virtual RtVoid Skew(RtFloat angle, RtFloat dx1, RtFloat dy1, RtFloat dz1, RtFloat dx2, RtFloat dy2, RtFloat dz2) { Call c("Skew"); c.F1(angle); c.F1(dx1); c.F1(dy1); c.F1(dz1); c.F1(dx2); c.F1(dy2); c.F1(dz2); add(c); }
    virtual RtVoid CoordinateSystem(RtConstToken space) { Call c("CoordinateSystem"); c.S1(space); add(c); }
    virtual RtVoid CoordSysTransform(RtConstToken space) { Call c("CoordSysTransform"); c.S1(space); add(c); }
    virtual RtVoid TransformBegin() { Call c("TransformBegin");  add(c); }
    virtual RtVoid TransformEnd() { Call c("TransformEnd");  add(c); }
    virtual RtVoid Resource(RtConstToken handle, RtConstToken type, const ParamList& pList) { Call c("Resource"); c.S1(handle); c.S1(type); c.PL(pList); add(c); }
    virtual RtVoid ResourceBegin() { Call c("ResourceBegin");  add(c); }
    virtual RtVoid ResourceEnd() { Call c("ResourceEnd");  add(c); }
    virtual RtVoid Attribute(RtConstToken name, const ParamList& pList) { Call c("Attribute"); c.S1(name); c.PL(pList); add(c); }
    virtual RtVoid Polygon(const ParamList& pList) { Call c("Polygon"); c.PL(pList); add(c); }
    virtual RtVoid GeneralPolygon(const IntArray& nverts, const ParamList& pList) { Call c("GeneralPolygon"); c.IA(nverts); c.PL(pList); add(c); }
    virtual RtVoid PointsPolygons(const IntArray& nverts, const IntArray& verts, const ParamList& pList) { Call c("PointsPolygons"); c.IA(nverts); c.IA(verts); c.PL(pList); add(c); }
    virtual RtVoid PointsGeneralPolygons(const IntArray& nloops, const IntArray& nverts, const IntArray& verts, const ParamList& pList) { Call c("PointsGeneralPolygons"); c.IA(nloops); c.IA(nverts); c.IA(verts); c.PL(pList); add(c); }
    virtual RtVoid Basis(RtConstBasis ubasis, RtInt ustep, RtConstBasis vbasis, RtInt vstep) { Call c("Basis"); c.FN(&ubasis[0][0],16); c.I1(ustep); c.FN(&vbasis[0][0],16); c.I1(vstep); add(c); }
    virtual RtVoid Patch(RtConstToken type, const ParamList& pList) { Call c("Patch"); c.S1(type); c.PL(pList); add(c); }
    virtual RtVoid PatchMesh(RtConstToken type, RtInt nu, RtConstToken uwrap, RtInt nv, RtConstToken vwrap, const ParamList& pList) { Call c("PatchMesh"); c.S1(type); c.I1(nu); c.S1(uwrap); c.I1(nv); c.S1(vwrap); c.PL(pList); add(c); }
    virtual RtVoid NuPatch(RtInt nu, RtInt uorder, const FloatArray& uknot, RtFloat umin, RtFloat umax, RtInt nv, RtInt vorder, const FloatArray& vknot, RtFloat vmin, RtFloat vmax, const ParamList& pList) { Call c("NuPatch"); c.I1(nu); c.I1(uorder); c.FA(uknot); c.F1(umin); c.F1(umax); c.I1(nv); c.I1(vorder); c.FA(vknot); c.F1(vmin); c.F1(vmax); c.PL(pList); add(c); }
    virtual RtVoid TrimCurve(const IntArray& ncurves, const IntArray& order, const FloatArray& knot, const FloatArray& min, const FloatArray& max, const IntArray& n, const FloatArray& u, const FloatArray& v, const FloatArray& w) { Call c("TrimCurve"); c.IA(ncurves); c.IA(order); c.FA(knot); c.FA(min); c.FA(max); c.IA(n); c.FA(u); c.FA(v); c.FA(w); add(c); }
    virtual RtVoid SubdivisionMesh(RtConstToken scheme, const IntArray& nvertices, const IntArray& vertices, const TokenArray& tags, const IntArray& nargs, const IntArray& intargs, const FloatArray& floatargs, const ParamList& pList) { Call c("SubdivisionMesh"); c.S1(scheme); c.IA(nvertices); c.IA(vertices); c.SA(tags); c.IA(nargs); c.IA(intargs); c.FA(floatargs); c.PL(pList); add(c); }
    virtual RtVoid Sphere(RtFloat radius, RtFloat zmin, RtFloat zmax, RtFloat thetamax, const ParamList& pList) { Call c("Sphere"); c.F1(radius); c.F1(zmin); c.F1(zmax); c.F1(thetamax); c.PL(pList); add(c); }
    virtual RtVoid Cone(RtFloat height, RtFloat radius, RtFloat thetamax, const ParamList& pList) { Call c("Cone"); c.F1(height); c.F1(radius); c.F1(thetamax); c.PL(pList); add(c); }
    virtual RtVoid Cylinder(RtFloat radius, RtFloat zmin, RtFloat zmax, RtFloat thetamax, const ParamList& pList) { Call c("Cylinder"); c.F1(radius); c.F1(zmin); c.F1(zmax); c.F1(thetamax); c.PL(pList); add(c); }
    virtual RtVoid Hyperboloid(RtConstPoint point1, RtConstPoint point2, RtFloat thetamax, const ParamList& pList) { Call c("Hyperboloid"); c.FN(point1,3); c.FN(point2,3); c.F1(thetamax); c.PL(pList); add(c); }
    virtual RtVoid Paraboloid(RtFloat rmax, RtFloat zmin, RtFloat zmax, RtFloat thetamax, const ParamList& pList) { Call c("Paraboloid"); c.F1(rmax); c.F1(zmin); c.F1(zmax); c.F1(thetamax); c.PL(pList); add(c); }
    virtual RtVoid Disk(RtFloat height, RtFloat radius, RtFloat thetamax, const ParamList& pList) { Call c("Disk"); c.F1(height); c.F1(radius); c.F1(thetamax); c.PL(pList); add(c); }
    virtual RtVoid Torus(RtFloat majorrad, RtFloat minorrad, RtFloat phimin, RtFloat phimax, RtFloat thetamax, const ParamList& pList) { Call c("Torus"); c.F1(majorrad); c.F1(minorrad); c.F1(phimin); c.F1(phimax); c.F1(thetamax); c.PL(pList); add(c); }
    virtual RtVoid Points(const ParamList& pList) { Call c("Points"); c.PL(pList); add(c); }
    virtual RtVoid Curves(RtConstToken type, const IntArray& nvertices, RtConstToken wrap, const ParamList& pList) { Call c("Curves"); c.S1(type); c.IA(nvertices); c.S1(wrap); c.PL(pList); add(c); }
    virtual RtVoid Blobby(RtInt nleaf, const IntArray& code, const FloatArray& floats, const TokenArray& strings, const ParamList& pList) { Call c("Blobby"); c.I1(nleaf); c.IA(code); c.FA(floats); c.SA(strings); c.PL(pList); add(c); }
    virtual RtVoid Procedural(RtPointer data, RtConstBound bound, RtProcSubdivFunc refineproc, RtProcFreeFunc freeproc) { recProcedural(data, bound, refineproc, freeproc); }
    virtual RtVoid Geometry(RtConstToken type, const ParamList& pList) { Call c("Geometry"); c.S1(type); c.PL(pList); add(c); }
    virtual RtVoid SolidBegin(RtConstToken type) { Call c("SolidBegin"); c.S1(type); add(c); }
    virtual RtVoid SolidEnd() { Call c("SolidEnd");  add(c); }
    virtual RtVoid ObjectBegin(RtConstToken name) { Call c("ObjectBegin"); c.S1(name); add(c); }
    virtual RtVoid ObjectEnd() { Call c("ObjectEnd");  add(c); }
    virtual RtVoid ObjectInstance(RtConstToken name) { Call c("ObjectInstance"); c.S1(name); add(c); }
    virtual RtVoid MotionBegin(const FloatArray& times) { Call c("MotionBegin"); c.FA(times); add(c); }
    virtual RtVoid MotionEnd() { Call c("MotionEnd");  add(c); }
    virtual RtVoid MakeTexture(RtConstString imagefile, RtConstString texturefile, RtConstToken swrap, RtConstToken twrap, RtFilterFunc filterfunc, RtFloat swidth, RtFloat twidth, const ParamList& pList) { Call c("MakeTexture"); c.S1(imagefile); c.S1(texturefile); c.S1(swrap); c.S1(twrap); c.S1(filterName(filterfunc)); c.F1(swidth); c.F1(twidth); c.PL(pList); add(c); }
    virtual RtVoid MakeLatLongEnvironment(RtConstString imagefile, RtConstString reflfile, RtFilterFunc filterfunc, RtFloat swidth, RtFloat twidth, const ParamList& pList) { Call c("MakeLatLongEnvironment"); c.S1(imagefile); c.S1(reflfile); c.S1(filterName(filterfunc)); c.F1(swidth); c.F1(twidth); c.PL(pList); add(c); }
    virtual RtVoid MakeCubeFaceEnvironment(RtConstString px, RtConstString nx, RtConstString py, RtConstString ny, RtConstString pz, RtConstString nz, RtConstString reflfile, RtFloat fov, RtFilterFunc filterfunc, RtFloat swidth, RtFloat twidth, const ParamList& pList) { Call c("MakeCubeFaceEnvironment"); c.S1(px); c.S1(nx); c.S1(py); c.S1(ny); c.S1(pz); c.S1(nz); c.S1(reflfile); c.F1(fov); c.S1(filterName(filterfunc)); c.F1(swidth); c.F1(twidth); c.PL(pList); add(c); }
    virtual RtVoid MakeShadow(RtConstString picfile, RtConstString shadowfile, const ParamList& pList) { Call c("MakeShadow"); c.S1(picfile); c.S1(shadowfile); c.PL(pList); add(c); }
    virtual RtVoid MakeOcclusion(const StringArray& picfiles, RtConstString shadowfile, const ParamList& pList) { Call c("MakeOcclusion"); c.SA(picfiles); c.S1(shadowfile); c.PL(pList); add(c); }
    virtual RtVoid ErrorHandler(RtErrorFunc handler) { Call c("ErrorHandler"); c.S1(errorName(handler)); add(c); }
    virtual RtVoid ReadArchive(RtConstToken name, RtArchiveCallback callback, const ParamList& pList) { Call c("ReadArchive"); c.S1(name); /*callback*/ c.PL(pList); add(c); }
    virtual RtVoid ArchiveBegin(RtConstToken name, const ParamList& pList) { Call c("ArchiveBegin"); c.S1(name); c.PL(pList); add(c); }
    virtual RtVoid ArchiveEnd() { Call c("ArchiveEnd");  add(c); }
#endif
#ifdef RI_GEN_APPLY
    if (c.name == "Declare") { r.Declare(c.a[0].s[0].c_str(), c.a[1].s[0].c_str()); return; }
    if (c.name == "FrameBegin") { r.FrameBegin((RtInt)c.a[0].i[0]); return; }
    if (c.name == "FrameEnd") { r.FrameEnd(); return; }
    if (c.name == "WorldBegin") { r.WorldBegin(); return; }
    if (c.name == "WorldEnd") { r.WorldEnd(); return; }
    if (c.name == "IfBegin") { r.IfBegin(c.a[0].s[0].c_str()); return; }
    if (c.name == "ElseIf") { r.ElseIf(c.a[0].s[0].c_str()); return; }
    if (c.name == "Else") { r.Else(); return; }
    if (c.name == "IfEnd") { r.IfEnd(); return; }
    if (c.name == "Format") { r.Format((RtInt)c.a[0].i[0], (RtInt)c.a[1].i[0], c.a[2].f[0]); return; }
    if (c.name == "FrameAspectRatio") { r.FrameAspectRatio(c.a[0].f[0]); return; }
    if (c.name == "ScreenWindow") { r.ScreenWindow(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0]); return; }
    if (c.name == "CropWindow") { r.CropWindow(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0]); return; }
    if (c.name == "Projection") { PListHold h2(c.a[1].pl); r.Projection(c.a[0].s[0].c_str(), h2.list()); return; }
    if (c.name == "Clipping") { r.Clipping(c.a[0].f[0], c.a[1].f[0]); return; }
    if (c.name == "ClippingPlane") { r.ClippingPlane(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], c.a[4].f[0], c.a[5].f[0]); return; }
    if (c.name == "DepthOfField") { r.DepthOfField(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0]); return; }
    if (c.name == "Shutter") { r.Shutter(c.a[0].f[0], c.a[1].f[0]); return; }
    if (c.name == "PixelVariance") { r.PixelVariance(c.a[0].f[0]); return; }
    if (c.name == "PixelSamples") { r.PixelSamples(c.a[0].f[0], c.a[1].f[0]); return; }
    if (c.name == "PixelFilter") { r.PixelFilter(env.filter(c.a[0].s[0]), c.a[1].f[0], c.a[2].f[0]); return; }
    if (c.name == "Exposure") { r.Exposure(c.a[0].f[0], c.a[1].f[0]); return; }
    if (c.name == "Imager") { PListHold h2(c.a[1].pl); r.Imager(c.a[0].s[0].c_str(), h2.list()); return; }
    if (c.name == "Quantize") { r.Quantize(c.a[0].s[0].c_str(), (RtInt)c.a[1].i[0], (RtInt)c.a[2].i[0], (RtInt)c.a[3].i[0], c.a[4].f[0]); return; }
    if (c.name == "Display") { PListHold h4(c.a[3].pl); r.Display(c.a[0].s[0].c_str(), c.a[1].s[0].c_str(), c.a[2].s[0].c_str(), h4.list()); return; }
    if (c.name == "Hider") { PListHold h2(c.a[1].pl); r.Hider(c.a[0].s[0].c_str(), h2.list()); return; }
    if (c.name == "ColorSamples") { r.ColorSamples(c.a[0].floats(), c.a[1].floats()); return; }
    if (c.name == "RelativeDetail") { r.RelativeDetail(c.a[0].f[0]); return; }
    if (c.name == "Option") { PListHold h2(c.a[1].pl); r.Option(c.a[0].s[0].c_str(), h2.list()); return; }
    if (c.name == "AttributeBegin") { r.AttributeBegin(); return; }
    if (c.name == "AttributeEnd") { r.AttributeEnd(); return; }
    if (c.name == "Color") { r.Color(&c.a[0].f[0]); return; }
    if (c.name == "Opacity") { r.Opacity(&c.a[0].f[0]); return; }
    if (c.name == "TextureCoordinates") { r.TextureCoordinates(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], c.a[4].f[0], c.a[5].f[0], c.a[6].f[0], c.a[7].f[0]); return; }
    if (c.name == "LightSource") { PListHold h3(c.a[2].pl); r.LightSource(c.a[0].s[0].c_str(), c.a[1].s[0].c_str(), h3.list()); return; }
    if (c.name == "AreaLightSource") { PListHold h3(c.a[2].pl); r.AreaLightSource(c.a[0].s[0].c_str(), c.a[1].s[0].c_str(), h3.list()); return; }
    if (c.name == "Illuminate") { r.Illuminate(c.a[0].s[0].c_str(), (RtBoolean)c.a[1].i[0]); return; }
    if (c.name == "Surface") { PListHold h2(c.a[1].pl); r.Surface(c.a[0].s[0].c_str(), h2.list()); return; }
    if (c.name == "Displacement") { PListHold h2(c.a[1].pl); r.Displacement(c.a[0].s[0].c_str(), h2.list()); return; }
    if (c.name == "Atmosphere") { PListHold h2(c.a[1].pl); r.Atmosphere(c.a[0].s[0].c_str(), h2.list()); return; }
    if (c.name == "Interior") { PListHold h2(c.a[1].pl); r.Interior(c.a[0].s[0].c_str(), h2.list()); return; }
    if (c.name == "Exterior") { PListHold h2(c.a[1].pl); r.Exterior(c.a[0].s[0].c_str(), h2.list()); return; }
    if (c.name == "ShaderLayer") { PListHold h4(c.a[3].pl); r.ShaderLayer(c.a[0].s[0].c_str(), c.a[1].s[0].c_str(), c.a[2].s[0].c_str(), h4.list()); return; }
    if (c.name == "ConnectShaderLayers") { r.ConnectShaderLayers(c.a[0].s[0].c_str(), c.a[1].s[0].c_str(), c.a[2].s[0].c_str(), c.a[3].s[0].c_str(), c.a[4].s[0].c_str()); return; }
    if (c.name == "ShadingRate") { r.ShadingRate(c.a[0].f[0]); return; }
    if (c.name == "ShadingInterpolation") { r.ShadingInterpolation(c.a[0].s[0].c_str()); return; }
    if (c.name == "Matte") { r.Matte((RtBoolean)c.a[0].i[0]); return; }
    if (c.name == "Bound") { r.Bound(&c.a[0].f[0]); return; }
    if (c.name == "Detail") { r.Detail(&c.a[0].f[0]); return; }
    if (c.name == "DetailRange") { r.DetailRange(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0]); return; }
    if (c.name == "GeometricApproximation") { r.GeometricApproximation(c.a[0].s[0].c_str(), c.a[1].f[0]); return; }
    if (c.name == "Orientation") { r.Orientation(c.a[0].s[0].c_str()); return; }
    if (c.name == "ReverseOrientation") { r.ReverseOrientation(); return; }
    if (c.name == "Sides") { r.Sides((RtInt)c.a[0].i[0]); return; }
    if (c.name == "Identity") { r.Identity(); return; }
    if (c.name == "Transform") { r.Transform(*(RtConstMatrix*)&c.a[0].f[0]); return; }
    if (c.name == "ConcatTransform") { r.ConcatTransform(*(RtConstMatrix*)&c.a[0].f[0]); return; }
    if (c.name == "Perspective") { r.Perspective(c.a[0].f[0]); return; }
    if (c.name == "Translate") { r.Translate(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0]); return; }
    if (c.name == "Rotate") { r.Rotate(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0]); return; }
    if (c.name == "Scale") { r.Scale(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0]); return; }
    if (c.name == "Skew") { r.Skew(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], c.a[4].f[0], c.a[5].f[0], c.a[6].f[0]); return; }
    if (c.name == "CoordinateSystem") { r.CoordinateSystem(c.a[0].s[0].c_str()); return; }
    if (c.name == "CoordSysTransform") { r.CoordSysTransform(c.a[0].s[0].c_str()); return; }
    if (c.name == "TransformBegin") { r.TransformBegin(); return; }
    if (c.name == "TransformEnd") { r.TransformEnd(); return; }
    if (c.name == "Resource") { PListHold h3(c.a[2].pl); r.Resource(c.a[0].s[0].c_str(), c.a[1].s[0].c_str(), h3.list()); return; }
    if (c.name == "ResourceBegin") { r.ResourceBegin(); return; }
    if (c.name == "ResourceEnd") { r.ResourceEnd(); return; }
    if (c.name == "Attribute") { PListHold h2(c.a[1].pl); r.Attribute(c.a[0].s[0].c_str(), h2.list()); return; }
    if (c.name == "Polygon") { PListHold h1(c.a[0].pl); r.Polygon(h1.list()); return; }
    if (c.name == "GeneralPolygon") { PListHold h2(c.a[1].pl); r.GeneralPolygon(c.a[0].ints(), h2.list()); return; }
    if (c.name == "PointsPolygons") { PListHold h3(c.a[2].pl); r.PointsPolygons(c.a[0].ints(), c.a[1].ints(), h3.list()); return; }
    if (c.name == "PointsGeneralPolygons") { PListHold h4(c.a[3].pl); r.PointsGeneralPolygons(c.a[0].ints(), c.a[1].ints(), c.a[2].ints(), h4.list()); return; }
    if (c.name == "Basis") { r.Basis(*(RtConstBasis*)&c.a[0].f[0], (RtInt)c.a[1].i[0], *(RtConstBasis*)&c.a[2].f[0], (RtInt)c.a[3].i[0]); return; }
    if (c.name == "Patch") { PListHold h2(c.a[1].pl); r.Patch(c.a[0].s[0].c_str(), h2.list()); return; }
    if (c.name == "PatchMesh") { PListHold h6(c.a[5].pl); r.PatchMesh(c.a[0].s[0].c_str(), (RtInt)c.a[1].i[0], c.a[2].s[0].c_str(), (RtInt)c.a[3].i[0], c.a[4].s[0].c_str(), h6.list()); return; }
    if (c.name == "NuPatch") { PListHold h11(c.a[10].pl); r.NuPatch((RtInt)c.a[0].i[0], (RtInt)c.a[1].i[0], c.a[2].floats(), c.a[3].f[0], c.a[4].f[0], (RtInt)c.a[5].i[0], (RtInt)c.a[6].i[0], c.a[7].floats(), c.a[8].f[0], c.a[9].f[0], h11.list()); return; }
    if (c.name == "TrimCurve") { r.TrimCurve(c.a[0].ints(), c.a[1].ints(), c.a[2].floats(), c.a[3].floats(), c.a[4].floats(), c.a[5].ints(), c.a[6].floats(), c.a[7].floats(), c.a[8].floats()); return; }
    if (c.name == "SubdivisionMesh") { StrHold h4(c.a[3].s); PListHold h8(c.a[7].pl); r.SubdivisionMesh(c.a[0].s[0].c_str(), c.a[1].ints(), c.a[2].ints(), h4.arr(), c.a[4].ints(), c.a[5].ints(), c.a[6].floats(), h8.list()); return; }
    if (c.name == "Sphere") { PListHold h5(c.a[4].pl); r.Sphere(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], h5.list()); return; }
    if (c.name == "Cone") { PListHold h4(c.a[3].pl); r.Cone(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], h4.list()); return; }
    if (c.name == "Cylinder") { PListHold h5(c.a[4].pl); r.Cylinder(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], h5.list()); return; }
    if (c.name == "Hyperboloid") { PListHold h4(c.a[3].pl); r.Hyperboloid(&c.a[0].f[0], &c.a[1].f[0], c.a[2].f[0], h4.list()); return; }
    if (c.name == "Paraboloid") { PListHold h5(c.a[4].pl); r.Paraboloid(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], h5.list()); return; }
    if (c.name == "Disk") { PListHold h4(c.a[3].pl); r.Disk(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], h4.list()); return; }
    if (c.name == "Torus") { PListHold h6(c.a[5].pl); r.Torus(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], c.a[4].f[0], h6.list()); return; }
    if (c.name == "Points") { PListHold h1(c.a[0].pl); r.Points(h1.list()); return; }
    if (c.name == "Curves") { PListHold h4(c.a[3].pl); r.Curves(c.a[0].s[0].c_str(), c.a[1].ints(), c.a[2].s[0].c_str(), h4.list()); return; }
    if (c.name == "Blobby") { StrHold h4(c.a[3].s); PListHold h5(c.a[4].pl); r.Blobby((RtInt)c.a[0].i[0], c.a[1].ints(), c.a[2].floats(), h4.arr(), h5.list()); return; }
    if (c.name == "Procedural") { applyProcedural(c, r, env); return; }
    if (c.name == "Geometry") { PListHold h2(c.a[1].pl); r.Geometry(c.a[0].s[0].c_str(), h2.list()); return; }
    if (c.name == "SolidBegin") { r.SolidBegin(c.a[0].s[0].c_str()); return; }
    if (c.name == "SolidEnd") { r.SolidEnd(); return; }
    if (c.name == "ObjectBegin") { r.ObjectBegin(c.a[0].s[0].c_str()); return; }
    if (c.name == "ObjectEnd") { r.ObjectEnd(); return; }
    if (c.name == "ObjectInstance") { r.ObjectInstance(c.a[0].s[0].c_str()); return; }
    if (c.name == "MotionBegin") { r.MotionBegin(c.a[0].floats()); return; }
    if (c.name == "MotionEnd") { r.MotionEnd(); return; }
    if (c.name == "MakeTexture") { PListHold h8(c.a[7].pl); r.MakeTexture(c.a[0].s[0].c_str(), c.a[1].s[0].c_str(), c.a[2].s[0].c_str(), c.a[3].s[0].c_str(), env.filter(c.a[4].s[0]), c.a[5].f[0], c.a[6].f[0], h8.list()); return; }
    if (c.name == "MakeLatLongEnvironment") { PListHold h6(c.a[5].pl); r.MakeLatLongEnvironment(c.a[0].s[0].c_str(), c.a[1].s[0].c_str(), env.filter(c.a[2].s[0]), c.a[3].f[0], c.a[4].f[0], h6.list()); return; }
    if (c.name == "MakeCubeFaceEnvironment") { PListHold h12(c.a[11].pl); r.MakeCubeFaceEnvironment(c.a[0].s[0].c_str(), c.a[1].s[0].c_str(), c.a[2].s[0].c_str(), c.a[3].s[0].c_str(), c.a[4].s[0].c_str(), c.a[5].s[0].c_str(), c.a[6].s[0].c_str(), c.a[7].f[0], env.filter(c.a[8].s[0]), c.a[9].f[0], c.a[10].f[0], h12.list()); return; }
    if (c.name == "MakeShadow") { PListHold h3(c.a[2].pl); r.MakeShadow(c.a[0].s[0].c_str(), c.a[1].s[0].c_str(), h3.list()); return; }
    if (c.name == "MakeOcclusion") { StrHold h1(c.a[0].s); PListHold h3(c.a[2].pl); r.MakeOcclusion(h1.arr(), c.a[1].s[0].c_str(), h3.list()); return; }
    if (c.name == "ErrorHandler") { r.ErrorHandler(env.error(c.a[0].s[0])); return; }
    if (c.name == "ReadArchive") { PListHold h2(c.a[1].pl); r.ReadArchive(c.a[0].s[0].c_str(), 0, h2.list()); return; }
    if (c.name == "ArchiveBegin") { PListHold h2(c.a[1].pl); r.ArchiveBegin(c.a[0].s[0].c_str(), h2.list()); return; }
    if (c.name == "ArchiveEnd") { r.ArchiveEnd(); return; }
#endif
#ifdef RI_GEN_CAPI
    if (c.name == "Declare") { RiDeclare(H.str(c.a[0].s[0]), H.str(c.a[1].s[0])); return; }
    if (c.name == "FrameBegin") { RiFrameBegin((RtInt)c.a[0].i[0]); return; }
    if (c.name == "FrameEnd") { RiFrameEnd(); return; }
    if (c.name == "WorldBegin") { RiWorldBegin(); return; }
    if (c.name == "WorldEnd") { RiWorldEnd(); return; }
    if (c.name == "IfBegin") { RiIfBegin(H.str(c.a[0].s[0])); return; }
    if (c.name == "ElseIf") { RiElseIf(H.str(c.a[0].s[0])); return; }
    if (c.name == "Else") { RiElse(); return; }
    if (c.name == "IfEnd") { RiIfEnd(); return; }
    if (c.name == "Format") { RiFormat((RtInt)c.a[0].i[0], (RtInt)c.a[1].i[0], c.a[2].f[0]); return; }
    if (c.name == "FrameAspectRatio") { RiFrameAspectRatio(c.a[0].f[0]); return; }
    if (c.name == "ScreenWindow") { RiScreenWindow(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0]); return; }
    if (c.name == "CropWindow") { RiCropWindow(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0]); return; }
    if (c.name == "Projection") { H.plist(c.a[1].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiProjectionV(H.str(c.a[0].s[0]), n, H.toks(), H.vals()); else if (n == 0) RiProjection(H.str(c.a[0].s[0]), RI_NULL); else if (n == 1) RiProjection(H.str(c.a[0].s[0]), H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiProjection(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiProjection(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "Clipping") { RiClipping(c.a[0].f[0], c.a[1].f[0]); return; }
    if (c.name == "ClippingPlane") { RiClippingPlane(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], c.a[4].f[0], c.a[5].f[0]); return; }
    if (c.name == "DepthOfField") { RiDepthOfField(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0]); return; }
    if (c.name == "Shutter") { RiShutter(c.a[0].f[0], c.a[1].f[0]); return; }
    if (c.name == "PixelVariance") { RiPixelVariance(c.a[0].f[0]); return; }
    if (c.name == "PixelSamples") { RiPixelSamples(c.a[0].f[0], c.a[1].f[0]); return; }
    if (c.name == "PixelFilter") { RiPixelFilter(capiFilter(c.a[0].s[0]), c.a[1].f[0], c.a[2].f[0]); return; }
    if (c.name == "Exposure") { RiExposure(c.a[0].f[0], c.a[1].f[0]); return; }
    if (c.name == "Imager") { H.plist(c.a[1].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiImagerV(H.str(c.a[0].s[0]), n, H.toks(), H.vals()); else if (n == 0) RiImager(H.str(c.a[0].s[0]), RI_NULL); else if (n == 1) RiImager(H.str(c.a[0].s[0]), H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiImager(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiImager(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "Quantize") { RiQuantize(H.str(c.a[0].s[0]), (RtInt)c.a[1].i[0], (RtInt)c.a[2].i[0], (RtInt)c.a[3].i[0], c.a[4].f[0]); return; }
    if (c.name == "Display") { H.plist(c.a[3].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiDisplayV(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), H.str(c.a[2].s[0]), n, H.toks(), H.vals()); else if (n == 0) RiDisplay(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), H.str(c.a[2].s[0]), RI_NULL); else if (n == 1) RiDisplay(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), H.str(c.a[2].s[0]), H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiDisplay(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), H.str(c.a[2].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiDisplay(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), H.str(c.a[2].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "Hider") { H.plist(c.a[1].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiHiderV(H.str(c.a[0].s[0]), n, H.toks(), H.vals()); else if (n == 0) RiHider(H.str(c.a[0].s[0]), RI_NULL); else if (n == 1) RiHider(H.str(c.a[0].s[0]), H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiHider(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiHider(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "ColorSamples") { RiColorSamples((RtInt)c.a[0].f.size()/3, H.flts(c.a[0].f), H.flts(c.a[1].f)); return; }
    if (c.name == "RelativeDetail") { RiRelativeDetail(c.a[0].f[0]); return; }
    if (c.name == "Option") { H.plist(c.a[1].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiOptionV(H.str(c.a[0].s[0]), n, H.toks(), H.vals()); else if (n == 0) RiOption(H.str(c.a[0].s[0]), RI_NULL); else if (n == 1) RiOption(H.str(c.a[0].s[0]), H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiOption(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiOption(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "AttributeBegin") { RiAttributeBegin(); return; }
    if (c.name == "AttributeEnd") { RiAttributeEnd(); return; }
    if (c.name == "Color") { RiColor(H.flts(c.a[0].f)); return; }
    if (c.name == "Opacity") { RiOpacity(H.flts(c.a[0].f)); return; }
    if (c.name == "TextureCoordinates") { RiTextureCoordinates(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], c.a[4].f[0], c.a[5].f[0], c.a[6].f[0], c.a[7].f[0]); return; }
    if (c.name == "LightSource") { H.plist(c.a[2].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) H.made(RiLightSourceV(H.str(c.a[0].s[0]), n, H.toks(), H.vals())); else if (n == 0) H.made(RiLightSource(H.str(c.a[0].s[0]), RI_NULL)); else if (n == 1) H.made(RiLightSource(H.str(c.a[0].s[0]), H.tok[0], H.val[0], RI_NULL)); else if (n == 2) H.made(RiLightSource(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL)); else if (n == 3) H.made(RiLightSource(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL)); return; }
    if (c.name == "AreaLightSource") { H.plist(c.a[2].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) H.made(RiAreaLightSourceV(H.str(c.a[0].s[0]), n, H.toks(), H.vals())); else if (n == 0) H.made(RiAreaLightSource(H.str(c.a[0].s[0]), RI_NULL)); else if (n == 1) H.made(RiAreaLightSource(H.str(c.a[0].s[0]), H.tok[0], H.val[0], RI_NULL)); else if (n == 2) H.made(RiAreaLightSource(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL)); else if (n == 3) H.made(RiAreaLightSource(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL)); return; }
    if (c.name == "Illuminate") { RiIlluminate(H.handle(c.a[0].s[0]), (RtInt)c.a[1].i[0]); return; }
    if (c.name == "Surface") { H.plist(c.a[1].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiSurfaceV(H.str(c.a[0].s[0]), n, H.toks(), H.vals()); else if (n == 0) RiSurface(H.str(c.a[0].s[0]), RI_NULL); else if (n == 1) RiSurface(H.str(c.a[0].s[0]), H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiSurface(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiSurface(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "Displacement") { H.plist(c.a[1].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiDisplacementV(H.str(c.a[0].s[0]), n, H.toks(), H.vals()); else if (n == 0) RiDisplacement(H.str(c.a[0].s[0]), RI_NULL); else if (n == 1) RiDisplacement(H.str(c.a[0].s[0]), H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiDisplacement(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiDisplacement(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "Atmosphere") { H.plist(c.a[1].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiAtmosphereV(H.str(c.a[0].s[0]), n, H.toks(), H.vals()); else if (n == 0) RiAtmosphere(H.str(c.a[0].s[0]), RI_NULL); else if (n == 1) RiAtmosphere(H.str(c.a[0].s[0]), H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiAtmosphere(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiAtmosphere(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "Interior") { H.plist(c.a[1].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiInteriorV(H.str(c.a[0].s[0]), n, H.toks(), H.vals()); else if (n == 0) RiInterior(H.str(c.a[0].s[0]), RI_NULL); else if (n == 1) RiInterior(H.str(c.a[0].s[0]), H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiInterior(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiInterior(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "Exterior") { H.plist(c.a[1].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiExteriorV(H.str(c.a[0].s[0]), n, H.toks(), H.vals()); else if (n == 0) RiExterior(H.str(c.a[0].s[0]), RI_NULL); else if (n == 1) RiExterior(H.str(c.a[0].s[0]), H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiExterior(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiExterior(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "ShaderLayer") { H.plist(c.a[3].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiShaderLayerV(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), H.str(c.a[2].s[0]), n, H.toks(), H.vals()); else if (n == 0) RiShaderLayer(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), H.str(c.a[2].s[0]), RI_NULL); else if (n == 1) RiShaderLayer(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), H.str(c.a[2].s[0]), H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiShaderLayer(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), H.str(c.a[2].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiShaderLayer(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), H.str(c.a[2].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "ConnectShaderLayers") { RiConnectShaderLayers(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), H.str(c.a[2].s[0]), H.str(c.a[3].s[0]), H.str(c.a[4].s[0])); return; }
    if (c.name == "ShadingRate") { RiShadingRate(c.a[0].f[0]); return; }
    if (c.name == "ShadingInterpolation") { RiShadingInterpolation(H.str(c.a[0].s[0])); return; }
    if (c.name == "Matte") { RiMatte((RtInt)c.a[0].i[0]); return; }
    if (c.name == "Bound") { RiBound(H.flts(c.a[0].f)); return; }
    if (c.name == "Detail") { RiDetail(H.flts(c.a[0].f)); return; }
    if (c.name == "DetailRange") { RiDetailRange(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0]); return; }
    if (c.name == "GeometricApproximation") { RiGeometricApproximation(H.str(c.a[0].s[0]), c.a[1].f[0]); return; }
    if (c.name == "Orientation") { RiOrientation(H.str(c.a[0].s[0])); return; }
    if (c.name == "ReverseOrientation") { RiReverseOrientation(); return; }
    if (c.name == "Sides") { RiSides((RtInt)c.a[0].i[0]); return; }
    if (c.name == "Identity") { RiIdentity(); return; }
    if (c.name == "Transform") { RiTransform((RtFloat(*)[4])H.flts(c.a[0].f)); return; }
    if (c.name == "ConcatTransform") { RiConcatTransform((RtFloat(*)[4])H.flts(c.a[0].f)); return; }
    if (c.name == "Perspective") { RiPerspective(c.a[0].f[0]); return; }
    if (c.name == "Translate") { RiTranslate(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0]); return; }
    if (c.name == "Rotate") { RiRotate(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0]); return; }
    if (c.name == "Scale") { RiScale(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0]); return; }
    if (c.name == "Skew") { RiSkew(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], c.a[4].f[0], c.a[5].f[0], c.a[6].f[0]); return; }
    if (c.name == "CoordinateSystem") { RiCoordinateSystem(H.str(c.a[0].s[0])); return; }
    if (c.name == "CoordSysTransform") { RiCoordSysTransform(H.str(c.a[0].s[0])); return; }
    if (c.name == "TransformBegin") { RiTransformBegin(); return; }
    if (c.name == "TransformEnd") { RiTransformEnd(); return; }
    if (c.name == "Resource") { H.plist(c.a[2].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiResourceV(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), n, H.toks(), H.vals()); else if (n == 0) RiResource(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), RI_NULL); else if (n == 1) RiResource(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiResource(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiResource(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "ResourceBegin") { RiResourceBegin(); return; }
    if (c.name == "ResourceEnd") { RiResourceEnd(); return; }
    if (c.name == "Attribute") { H.plist(c.a[1].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiAttributeV(H.str(c.a[0].s[0]), n, H.toks(), H.vals()); else if (n == 0) RiAttribute(H.str(c.a[0].s[0]), RI_NULL); else if (n == 1) RiAttribute(H.str(c.a[0].s[0]), H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiAttribute(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiAttribute(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "Polygon") { H.plist(c.a[0].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiPolygonV((RtInt)capiCountP(c.a[0].pl), n, H.toks(), H.vals()); else if (n == 0) RiPolygon((RtInt)capiCountP(c.a[0].pl), RI_NULL); else if (n == 1) RiPolygon((RtInt)capiCountP(c.a[0].pl), H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiPolygon((RtInt)capiCountP(c.a[0].pl), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiPolygon((RtInt)capiCountP(c.a[0].pl), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "GeneralPolygon") { H.plist(c.a[1].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiGeneralPolygonV((RtInt)c.a[0].i.size(), H.ints(c.a[0].i), n, H.toks(), H.vals()); else if (n == 0) RiGeneralPolygon((RtInt)c.a[0].i.size(), H.ints(c.a[0].i), RI_NULL); else if (n == 1) RiGeneralPolygon((RtInt)c.a[0].i.size(), H.ints(c.a[0].i), H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiGeneralPolygon((RtInt)c.a[0].i.size(), H.ints(c.a[0].i), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiGeneralPolygon((RtInt)c.a[0].i.size(), H.ints(c.a[0].i), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "PointsPolygons") { H.plist(c.a[2].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiPointsPolygonsV((RtInt)c.a[0].i.size(), H.ints(c.a[0].i), H.ints(c.a[1].i), n, H.toks(), H.vals()); else if (n == 0) RiPointsPolygons((RtInt)c.a[0].i.size(), H.ints(c.a[0].i), H.ints(c.a[1].i), RI_NULL); else if (n == 1) RiPointsPolygons((RtInt)c.a[0].i.size(), H.ints(c.a[0].i), H.ints(c.a[1].i), H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiPointsPolygons((RtInt)c.a[0].i.size(), H.ints(c.a[0].i), H.ints(c.a[1].i), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiPointsPolygons((RtInt)c.a[0].i.size(), H.ints(c.a[0].i), H.ints(c.a[1].i), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "PointsGeneralPolygons") { H.plist(c.a[3].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiPointsGeneralPolygonsV((RtInt)c.a[0].i.size(), H.ints(c.a[0].i), H.ints(c.a[1].i), H.ints(c.a[2].i), n, H.toks(), H.vals()); else if (n == 0) RiPointsGeneralPolygons((RtInt)c.a[0].i.size(), H.ints(c.a[0].i), H.ints(c.a[1].i), H.ints(c.a[2].i), RI_NULL); else if (n == 1) RiPointsGeneralPolygons((RtInt)c.a[0].i.size(), H.ints(c.a[0].i), H.ints(c.a[1].i), H.ints(c.a[2].i), H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiPointsGeneralPolygons((RtInt)c.a[0].i.size(), H.ints(c.a[0].i), H.ints(c.a[1].i), H.ints(c.a[2].i), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiPointsGeneralPolygons((RtInt)c.a[0].i.size(), H.ints(c.a[0].i), H.ints(c.a[1].i), H.ints(c.a[2].i), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "Basis") { RiBasis((RtFloat(*)[4])H.flts(c.a[0].f), (RtInt)c.a[1].i[0], (RtFloat(*)[4])H.flts(c.a[2].f), (RtInt)c.a[3].i[0]); return; }
    if (c.name == "Patch") { H.plist(c.a[1].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiPatchV(H.str(c.a[0].s[0]), n, H.toks(), H.vals()); else if (n == 0) RiPatch(H.str(c.a[0].s[0]), RI_NULL); else if (n == 1) RiPatch(H.str(c.a[0].s[0]), H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiPatch(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiPatch(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "PatchMesh") { H.plist(c.a[5].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiPatchMeshV(H.str(c.a[0].s[0]), (RtInt)c.a[1].i[0], H.str(c.a[2].s[0]), (RtInt)c.a[3].i[0], H.str(c.a[4].s[0]), n, H.toks(), H.vals()); else if (n == 0) RiPatchMesh(H.str(c.a[0].s[0]), (RtInt)c.a[1].i[0], H.str(c.a[2].s[0]), (RtInt)c.a[3].i[0], H.str(c.a[4].s[0]), RI_NULL); else if (n == 1) RiPatchMesh(H.str(c.a[0].s[0]), (RtInt)c.a[1].i[0], H.str(c.a[2].s[0]), (RtInt)c.a[3].i[0], H.str(c.a[4].s[0]), H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiPatchMesh(H.str(c.a[0].s[0]), (RtInt)c.a[1].i[0], H.str(c.a[2].s[0]), (RtInt)c.a[3].i[0], H.str(c.a[4].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiPatchMesh(H.str(c.a[0].s[0]), (RtInt)c.a[1].i[0], H.str(c.a[2].s[0]), (RtInt)c.a[3].i[0], H.str(c.a[4].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "NuPatch") { H.plist(c.a[10].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiNuPatchV((RtInt)c.a[0].i[0], (RtInt)c.a[1].i[0], H.flts(c.a[2].f), c.a[3].f[0], c.a[4].f[0], (RtInt)c.a[5].i[0], (RtInt)c.a[6].i[0], H.flts(c.a[7].f), c.a[8].f[0], c.a[9].f[0], n, H.toks(), H.vals()); else if (n == 0) RiNuPatch((RtInt)c.a[0].i[0], (RtInt)c.a[1].i[0], H.flts(c.a[2].f), c.a[3].f[0], c.a[4].f[0], (RtInt)c.a[5].i[0], (RtInt)c.a[6].i[0], H.flts(c.a[7].f), c.a[8].f[0], c.a[9].f[0], RI_NULL); else if (n == 1) RiNuPatch((RtInt)c.a[0].i[0], (RtInt)c.a[1].i[0], H.flts(c.a[2].f), c.a[3].f[0], c.a[4].f[0], (RtInt)c.a[5].i[0], (RtInt)c.a[6].i[0], H.flts(c.a[7].f), c.a[8].f[0], c.a[9].f[0], H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiNuPatch((RtInt)c.a[0].i[0], (RtInt)c.a[1].i[0], H.flts(c.a[2].f), c.a[3].f[0], c.a[4].f[0], (RtInt)c.a[5].i[0], (RtInt)c.a[6].i[0], H.flts(c.a[7].f), c.a[8].f[0], c.a[9].f[0], H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiNuPatch((RtInt)c.a[0].i[0], (RtInt)c.a[1].i[0], H.flts(c.a[2].f), c.a[3].f[0], c.a[4].f[0], (RtInt)c.a[5].i[0], (RtInt)c.a[6].i[0], H.flts(c.a[7].f), c.a[8].f[0], c.a[9].f[0], H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "TrimCurve") { RiTrimCurve((RtInt)c.a[0].i.size(), H.ints(c.a[0].i), H.ints(c.a[1].i), H.flts(c.a[2].f), H.flts(c.a[3].f), H.flts(c.a[4].f), H.ints(c.a[5].i), H.flts(c.a[6].f), H.flts(c.a[7].f), H.flts(c.a[8].f)); return; }
    if (c.name == "SubdivisionMesh") { H.plist(c.a[7].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiSubdivisionMeshV(H.str(c.a[0].s[0]), (RtInt)c.a[1].i.size(), H.ints(c.a[1].i), H.ints(c.a[2].i), (RtInt)c.a[3].s.size(), H.strs(c.a[3].s), H.ints(c.a[4].i), H.ints(c.a[5].i), H.flts(c.a[6].f), n, H.toks(), H.vals()); else if (n == 0) RiSubdivisionMesh(H.str(c.a[0].s[0]), (RtInt)c.a[1].i.size(), H.ints(c.a[1].i), H.ints(c.a[2].i), (RtInt)c.a[3].s.size(), H.strs(c.a[3].s), H.ints(c.a[4].i), H.ints(c.a[5].i), H.flts(c.a[6].f), RI_NULL); else if (n == 1) RiSubdivisionMesh(H.str(c.a[0].s[0]), (RtInt)c.a[1].i.size(), H.ints(c.a[1].i), H.ints(c.a[2].i), (RtInt)c.a[3].s.size(), H.strs(c.a[3].s), H.ints(c.a[4].i), H.ints(c.a[5].i), H.flts(c.a[6].f), H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiSubdivisionMesh(H.str(c.a[0].s[0]), (RtInt)c.a[1].i.size(), H.ints(c.a[1].i), H.ints(c.a[2].i), (RtInt)c.a[3].s.size(), H.strs(c.a[3].s), H.ints(c.a[4].i), H.ints(c.a[5].i), H.flts(c.a[6].f), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiSubdivisionMesh(H.str(c.a[0].s[0]), (RtInt)c.a[1].i.size(), H.ints(c.a[1].i), H.ints(c.a[2].i), (RtInt)c.a[3].s.size(), H.strs(c.a[3].s), H.ints(c.a[4].i), H.ints(c.a[5].i), H.flts(c.a[6].f), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "Sphere") { H.plist(c.a[4].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiSphereV(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], n, H.toks(), H.vals()); else if (n == 0) RiSphere(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], RI_NULL); else if (n == 1) RiSphere(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiSphere(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiSphere(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "Cone") { H.plist(c.a[3].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiConeV(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], n, H.toks(), H.vals()); else if (n == 0) RiCone(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], RI_NULL); else if (n == 1) RiCone(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiCone(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiCone(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "Cylinder") { H.plist(c.a[4].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiCylinderV(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], n, H.toks(), H.vals()); else if (n == 0) RiCylinder(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], RI_NULL); else if (n == 1) RiCylinder(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiCylinder(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiCylinder(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "Hyperboloid") { H.plist(c.a[3].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiHyperboloidV(H.flts(c.a[0].f), H.flts(c.a[1].f), c.a[2].f[0], n, H.toks(), H.vals()); else if (n == 0) RiHyperboloid(H.flts(c.a[0].f), H.flts(c.a[1].f), c.a[2].f[0], RI_NULL); else if (n == 1) RiHyperboloid(H.flts(c.a[0].f), H.flts(c.a[1].f), c.a[2].f[0], H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiHyperboloid(H.flts(c.a[0].f), H.flts(c.a[1].f), c.a[2].f[0], H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiHyperboloid(H.flts(c.a[0].f), H.flts(c.a[1].f), c.a[2].f[0], H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "Paraboloid") { H.plist(c.a[4].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiParaboloidV(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], n, H.toks(), H.vals()); else if (n == 0) RiParaboloid(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], RI_NULL); else if (n == 1) RiParaboloid(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiParaboloid(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiParaboloid(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "Disk") { H.plist(c.a[3].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiDiskV(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], n, H.toks(), H.vals()); else if (n == 0) RiDisk(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], RI_NULL); else if (n == 1) RiDisk(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiDisk(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiDisk(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "Torus") { H.plist(c.a[5].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiTorusV(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], c.a[4].f[0], n, H.toks(), H.vals()); else if (n == 0) RiTorus(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], c.a[4].f[0], RI_NULL); else if (n == 1) RiTorus(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], c.a[4].f[0], H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiTorus(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], c.a[4].f[0], H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiTorus(c.a[0].f[0], c.a[1].f[0], c.a[2].f[0], c.a[3].f[0], c.a[4].f[0], H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "Points") { H.plist(c.a[0].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiPointsV((RtInt)capiCountP(c.a[0].pl), n, H.toks(), H.vals()); else if (n == 0) RiPoints((RtInt)capiCountP(c.a[0].pl), RI_NULL); else if (n == 1) RiPoints((RtInt)capiCountP(c.a[0].pl), H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiPoints((RtInt)capiCountP(c.a[0].pl), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiPoints((RtInt)capiCountP(c.a[0].pl), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "Curves") { H.plist(c.a[3].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiCurvesV(H.str(c.a[0].s[0]), (RtInt)c.a[1].i.size(), H.ints(c.a[1].i), H.str(c.a[2].s[0]), n, H.toks(), H.vals()); else if (n == 0) RiCurves(H.str(c.a[0].s[0]), (RtInt)c.a[1].i.size(), H.ints(c.a[1].i), H.str(c.a[2].s[0]), RI_NULL); else if (n == 1) RiCurves(H.str(c.a[0].s[0]), (RtInt)c.a[1].i.size(), H.ints(c.a[1].i), H.str(c.a[2].s[0]), H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiCurves(H.str(c.a[0].s[0]), (RtInt)c.a[1].i.size(), H.ints(c.a[1].i), H.str(c.a[2].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiCurves(H.str(c.a[0].s[0]), (RtInt)c.a[1].i.size(), H.ints(c.a[1].i), H.str(c.a[2].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "Blobby") { H.plist(c.a[4].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiBlobbyV((RtInt)c.a[0].i[0], (RtInt)c.a[1].i.size(), H.ints(c.a[1].i), (RtInt)c.a[2].f.size(), H.flts(c.a[2].f), (RtInt)c.a[3].s.size(), H.strs(c.a[3].s), n, H.toks(), H.vals()); else if (n == 0) RiBlobby((RtInt)c.a[0].i[0], (RtInt)c.a[1].i.size(), H.ints(c.a[1].i), (RtInt)c.a[2].f.size(), H.flts(c.a[2].f), (RtInt)c.a[3].s.size(), H.strs(c.a[3].s), RI_NULL); else if (n == 1) RiBlobby((RtInt)c.a[0].i[0], (RtInt)c.a[1].i.size(), H.ints(c.a[1].i), (RtInt)c.a[2].f.size(), H.flts(c.a[2].f), (RtInt)c.a[3].s.size(), H.strs(c.a[3].s), H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiBlobby((RtInt)c.a[0].i[0], (RtInt)c.a[1].i.size(), H.ints(c.a[1].i), (RtInt)c.a[2].f.size(), H.flts(c.a[2].f), (RtInt)c.a[3].s.size(), H.strs(c.a[3].s), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiBlobby((RtInt)c.a[0].i[0], (RtInt)c.a[1].i.size(), H.ints(c.a[1].i), (RtInt)c.a[2].f.size(), H.flts(c.a[2].f), (RtInt)c.a[3].s.size(), H.strs(c.a[3].s), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "Geometry") { H.plist(c.a[1].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiGeometryV(H.str(c.a[0].s[0]), n, H.toks(), H.vals()); else if (n == 0) RiGeometry(H.str(c.a[0].s[0]), RI_NULL); else if (n == 1) RiGeometry(H.str(c.a[0].s[0]), H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiGeometry(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiGeometry(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "SolidBegin") { RiSolidBegin(H.str(c.a[0].s[0])); return; }
    if (c.name == "SolidEnd") { RiSolidEnd(); return; }
    if (c.name == "ObjectBegin") { H.made(RiObjectBegin()); return; }
    if (c.name == "ObjectEnd") { RiObjectEnd(); return; }
    if (c.name == "ObjectInstance") { RiObjectInstance(H.handle(c.a[0].s[0])); return; }
    if (c.name == "MotionEnd") { RiMotionEnd(); return; }
    if (c.name == "MakeTexture") { H.plist(c.a[7].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiMakeTextureV(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), H.str(c.a[2].s[0]), H.str(c.a[3].s[0]), capiFilter(c.a[4].s[0]), c.a[5].f[0], c.a[6].f[0], n, H.toks(), H.vals()); else if (n == 0) RiMakeTexture(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), H.str(c.a[2].s[0]), H.str(c.a[3].s[0]), capiFilter(c.a[4].s[0]), c.a[5].f[0], c.a[6].f[0], RI_NULL); else if (n == 1) RiMakeTexture(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), H.str(c.a[2].s[0]), H.str(c.a[3].s[0]), capiFilter(c.a[4].s[0]), c.a[5].f[0], c.a[6].f[0], H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiMakeTexture(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), H.str(c.a[2].s[0]), H.str(c.a[3].s[0]), capiFilter(c.a[4].s[0]), c.a[5].f[0], c.a[6].f[0], H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiMakeTexture(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), H.str(c.a[2].s[0]), H.str(c.a[3].s[0]), capiFilter(c.a[4].s[0]), c.a[5].f[0], c.a[6].f[0], H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "MakeLatLongEnvironment") { H.plist(c.a[5].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiMakeLatLongEnvironmentV(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), capiFilter(c.a[2].s[0]), c.a[3].f[0], c.a[4].f[0], n, H.toks(), H.vals()); else if (n == 0) RiMakeLatLongEnvironment(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), capiFilter(c.a[2].s[0]), c.a[3].f[0], c.a[4].f[0], RI_NULL); else if (n == 1) RiMakeLatLongEnvironment(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), capiFilter(c.a[2].s[0]), c.a[3].f[0], c.a[4].f[0], H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiMakeLatLongEnvironment(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), capiFilter(c.a[2].s[0]), c.a[3].f[0], c.a[4].f[0], H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiMakeLatLongEnvironment(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), capiFilter(c.a[2].s[0]), c.a[3].f[0], c.a[4].f[0], H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "MakeCubeFaceEnvironment") { H.plist(c.a[11].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiMakeCubeFaceEnvironmentV(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), H.str(c.a[2].s[0]), H.str(c.a[3].s[0]), H.str(c.a[4].s[0]), H.str(c.a[5].s[0]), H.str(c.a[6].s[0]), c.a[7].f[0], capiFilter(c.a[8].s[0]), c.a[9].f[0], c.a[10].f[0], n, H.toks(), H.vals()); else if (n == 0) RiMakeCubeFaceEnvironment(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), H.str(c.a[2].s[0]), H.str(c.a[3].s[0]), H.str(c.a[4].s[0]), H.str(c.a[5].s[0]), H.str(c.a[6].s[0]), c.a[7].f[0], capiFilter(c.a[8].s[0]), c.a[9].f[0], c.a[10].f[0], RI_NULL); else if (n == 1) RiMakeCubeFaceEnvironment(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), H.str(c.a[2].s[0]), H.str(c.a[3].s[0]), H.str(c.a[4].s[0]), H.str(c.a[5].s[0]), H.str(c.a[6].s[0]), c.a[7].f[0], capiFilter(c.a[8].s[0]), c.a[9].f[0], c.a[10].f[0], H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiMakeCubeFaceEnvironment(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), H.str(c.a[2].s[0]), H.str(c.a[3].s[0]), H.str(c.a[4].s[0]), H.str(c.a[5].s[0]), H.str(c.a[6].s[0]), c.a[7].f[0], capiFilter(c.a[8].s[0]), c.a[9].f[0], c.a[10].f[0], H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiMakeCubeFaceEnvironment(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), H.str(c.a[2].s[0]), H.str(c.a[3].s[0]), H.str(c.a[4].s[0]), H.str(c.a[5].s[0]), H.str(c.a[6].s[0]), c.a[7].f[0], capiFilter(c.a[8].s[0]), c.a[9].f[0], c.a[10].f[0], H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "MakeShadow") { H.plist(c.a[2].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiMakeShadowV(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), n, H.toks(), H.vals()); else if (n == 0) RiMakeShadow(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), RI_NULL); else if (n == 1) RiMakeShadow(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiMakeShadow(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiMakeShadow(H.str(c.a[0].s[0]), H.str(c.a[1].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "MakeOcclusion") { H.plist(c.a[2].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiMakeOcclusionV((RtInt)c.a[0].s.size(), H.strs(c.a[0].s), H.str(c.a[1].s[0]), n, H.toks(), H.vals()); else if (n == 0) RiMakeOcclusion((RtInt)c.a[0].s.size(), H.strs(c.a[0].s), H.str(c.a[1].s[0]), RI_NULL); else if (n == 1) RiMakeOcclusion((RtInt)c.a[0].s.size(), H.strs(c.a[0].s), H.str(c.a[1].s[0]), H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiMakeOcclusion((RtInt)c.a[0].s.size(), H.strs(c.a[0].s), H.str(c.a[1].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiMakeOcclusion((RtInt)c.a[0].s.size(), H.strs(c.a[0].s), H.str(c.a[1].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "ErrorHandler") { RiErrorHandler(capiError(c.a[0].s[0])); return; }
    if (c.name == "ReadArchive") { H.plist(c.a[1].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiReadArchiveV(H.str(c.a[0].s[0]), (RtArchiveCallback)0, n, H.toks(), H.vals()); else if (n == 0) RiReadArchive(H.str(c.a[0].s[0]), (RtArchiveCallback)0, RI_NULL); else if (n == 1) RiReadArchive(H.str(c.a[0].s[0]), (RtArchiveCallback)0, H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiReadArchive(H.str(c.a[0].s[0]), (RtArchiveCallback)0, H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiReadArchive(H.str(c.a[0].s[0]), (RtArchiveCallback)0, H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "ArchiveBegin") { H.plist(c.a[1].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) RiArchiveBeginV(H.str(c.a[0].s[0]), n, H.toks(), H.vals()); else if (n == 0) RiArchiveBegin(H.str(c.a[0].s[0]), RI_NULL); else if (n == 1) RiArchiveBegin(H.str(c.a[0].s[0]), H.tok[0], H.val[0], RI_NULL); else if (n == 2) RiArchiveBegin(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], RI_NULL); else if (n == 3) RiArchiveBegin(H.str(c.a[0].s[0]), H.tok[0], H.val[0], H.tok[1], H.val[1], H.tok[2], H.val[2], RI_NULL); return; }
    if (c.name == "ArchiveEnd") { RiArchiveEnd(); return; }
#endif
