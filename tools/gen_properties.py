#!/usr/bin/env python3
# Writes /verif/properties.jsonl (source of truth for the property texts).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe:a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Reading a .binvox file decodes exactly the voxels its run data describes",
"Reading a binvox file whose dimensions are positive returns its dimensions, translation and scale and exactly the voxels that the run-length data sets to 1 (y fastest, then z, then x) and that lie in the requested window [start, start+count) per axis, where a count of 0 or larger than the dimension means the whole dimension. Run data with a value other than 0 or 1, a zero count, a missing count byte, or more cells than the grid holds is rejected with an error, and well-formed data is never rejected.",
["inputs"],"every byte stream, every grid size, every start/count window",
"The read tests use two fixed headers and a few short run lists with one window; run boundaries, 255-long runs, window edges and malformed tails are an unbounded input space.",
["binvox/read.go"],[("run decoder with x/z/y cursor","binvox/read.go read"),("window test","binvox/read.go read")],
[("WhiteVoxels","set of white voxels decoded","binvox/binvox.go")],["return value of the reader"])

p("C02","Writing a .binvox file encodes exactly the requested window of the model",
"The run data written for a model and a window (start and count per axis, count 0 meaning the model's dimension) decodes, y fastest then z then x, to exactly one value per cell of the window, 1 where the model has a white voxel at that position and 0 elsewhere. Every run has a count between 1 and 255, the counts add up to the number of cells announced in the header, and the reported number of white voxels is the number of cells written as 1.",
["inputs","schedules"],"every voxel set, every window, every run length, every interleaving of the encoder and the writer",
"No test writes a binvox file at all; run splitting at 255, flushes at value changes and the final run depend on arbitrary voxel patterns.",
["binvox/write.go"],[("run encoder","binvox/write.go encode"),("run splitting into bytes","binvox/write.go write"),("channel from encoder to writer","binvox/write.go write")],
[("rle channel","runs in file order","binvox/write.go")],["bytes handed to the writer"])

p("C03","A .binvox file that was written reads back as the same model",
"Writing a whole model whose white voxels all lie inside its dimensions and reading the file back yields the same dimensions, translation, scale and exactly the same set of white voxels. A model without white voxels reads back without voxels.",
["inputs"],"every model with voxels inside its dimensions, including runs longer than 255 and grids of unequal sides",
"No test writes and re-reads a file; the property composes encoder and decoder over all voxel sets.",
["binvox/read.go","binvox/write.go"],[("encode/decode index agreement","binvox/write.go encode, binvox/read.go read"),("header format and header expressions","binvox/write.go, binvox/read.go")])

p("C04","Reading a .vsh file decodes exactly the shell voxels its run data describes",
"Reading a vshell file whose dimensions are positive returns its dimensions, translation and scale and exactly one shell voxel, carrying the run's neighbour bits, for every cell that the run data gives a value other than 0 and 0xffffffff and that lies in the requested window [start, start+count) per axis (0 or too large a count means the whole dimension). A run with a missing or partial value or count, a zero byte count, or more cells than the grid holds is rejected with an error, and well-formed data is never rejected.",
["inputs"],"every byte stream, grid size and window",
"The read tests use a few short fixed inputs.",
["vshell/read.go"],[("two-width run decoder","vshell/read.go read"),("window test","vshell/read.go read")])

p("C05","A .vsh file encodes exactly the shell and reads back as the same shell",
"Writing a shell whose voxels lie inside its dimensions and carry non-zero neighbour bits produces run data that decodes to exactly those voxels with those bits, whatever the lengths of the runs between them, and reading the file back yields the same dimensions, translation, scale, voxels and neighbour bits. The counts of the runs add up to the number of cells announced in the header and the reported voxel count is the number of shell voxels written.",
["inputs","schedules"],"every shell, every window, gaps of any length (also beyond 65535 cells), every interleaving of encoder and writer",
"No test writes a vshell file; long empty runs need grids far larger than the tests use.",
["vshell/write.go","vshell/read.go"],[("run encoder with 16-bit counts","vshell/write.go encode"),("run splitting by value class","vshell/write.go write")])

p("C06","A vshell holds exactly the exposed voxels, each with its true neighbour bits",
"After building a shell from a model, and after adding further models that do not overlap what was added before, the shell lists exactly once every voxel of the union that has at least one of its 26 neighbours empty, as long as no voxel enclosed earlier is touched by later ones. Each listed voxel's bits name exactly the neighbours of the union that are present.",
["inputs","histories"],"every voxel set and every sequence of additions of disjoint models on a common grid",
"The tests use a 3x3x3 cube and a few single voxels; neighbour updates across additions depend on the history and on how storage grows.",
["vshell/merge.go","vshell/vshell.go"],[("neighbour search","vshell/merge.go findNeighbors"),("update of old neighbours","vshell/merge.go Add, diffKeys"),("removal of newly enclosed voxels","vshell/merge.go Add")],
[("N","26-bit map of present neighbours","vshell/vshell.go VShVoxel")])

p("C07","Merging models into a vshell keeps every voxel at its world position",
"When a model is added to a shell of the same resolution on a common grid, every old and new voxel keeps its world-space position (translation plus index divided by voxels per millimetre) up to rounding to the grid, whatever the signs of the offsets between the two. The merged translation is the per-axis minimum, no voxel index is negative when none was before, the dimensions cover every voxel, and the number of voxels per millimetre is unchanged.",
["inputs","histories"],"all translations of either sign on every axis, all dimensions, every sequence of additions",
"One test uses a single offset of (1,1,1); mixed signs and non-exact products are never tried.",
["vshell/merge.go"],[("offset and shift computation","vshell/merge.go update"),("dimension and scale update","vshell/merge.go Add")])

p("C08","Cutting one voxel model by another is set difference in world space",
"Cutting a base model by a cut model of the same resolution returns exactly the base voxels whose world position, rounded to the grid, is not occupied by a white voxel of the cut model, for any translations of the two models. The inputs are not modified, an empty cut returns the base unchanged, and an empty base is an error when there is something to cut.",
["inputs"],"every pair of white voxel models and all translations of either sign",
"The test cuts a few voxels with fixed translations.",
["cmd/voxcut/voxcut.go"],[("index offset between models","cmd/voxcut/voxcut.go voxcut"),("voxel lookup","binvox/binvox.go Get")])

p("C09","The manifold mesh of a model is closed and consistently oriented",
"The mesh produced by the manifold exporter for a voxel model is closed and consistently oriented: along every edge, cut at its midpoint where needed, the triangles using it in one direction balance those using it in the other direction. Every vertex lies in the world-space grid cell it was generated for, placed with the model's translation and resolution.",
["inputs"],"every voxel set, any size and shape, any translation and positive scale",
"The test compares mesh files of single configurations with golden files; how patches of neighbouring cells meet is never checked.",
["binvox/manifold.go","binvox/face-templates.go"],[("corner bitmap of every grid cell","binvox/manifold.go ManifoldMesh"),("patch per bitmap","binvox/manifold.go grid2tris"),("patch templates","binvox/face-templates.go")])

p("C10","The marching-cubes mesh is closed, oriented and separates inside from outside",
"The mesh produced by the marching-cubes exporter is closed and consistently oriented for every voxel model: each directed edge is used as often as its reverse. Every vertex is the midpoint, in world space, between the centres of a white voxel and an empty neighbour, and every such pair of axis neighbours yields mesh vertices there.",
["inputs"],"every voxel set, any translation and positive scale",
"No test calls the marching-cubes exporter.",
["binvox/marching-cubes.go"],[("cell corner values","binvox/marching-cubes.go cell"),("edge and triangle tables","binvox/marching-cubes.go"),("enumeration of boundary cells","binvox/marching-cubes.go MarchingCubes")])

p("C11","Model resolution, bounding box and lookups agree with the stored voxels",
"A model's resolution is its largest dimension divided by its scale (1 when the scale is not positive), its bounding box spans from its translation to its translation plus dimensions divided by resolution, and looking up a position reports it present exactly if a white or coloured voxel was added there, white winning over colour. Adding a voxel changes no other voxel; the same resolution and box rules hold for shells.",
["inputs","histories"],"all dimensions, translations, scales and sequences of additions",
"No test covers these accessors directly; every exporter relies on them.",
["binvox/binvox.go","vshell/vshell.go"],[("accessors","binvox/binvox.go"),("accessors","vshell/vshell.go")])

p("C12","Voxelizing a mesh sets only voxels of the requested region, on any schedule",
"Voxelizing a mesh region yields only voxels with 0 <= x < NX, 0 <= y < NY, 0 <= z < NZ, for any mesh and any region placed anywhere relative to it, and is refused with an error when a dimension is zero. The result does not depend on how the per-layer and per-row workers are scheduled, and voxelizing all layers yields the union of voxelizing each layer alone.",
["inputs","schedules"],"all meshes, all regions, all interleavings of the workers",
"The test voxelizes two small meshes that fit the region, on one schedule.",
["binvox/voxelize.go"],[("row clipping","binvox/voxelize.go rasterizeShellPair"),("column clipping","binvox/voxelize.go floodFill"),("lock around the result map","binvox/voxelize.go Voxelize")])

p("C13","Rasterising a segment marks a gap-free path between its end voxels",
"For every segment in a layer, in any direction, the marked voxels form a path from the voxel of the first end point to the voxel of the second in which consecutive voxels differ by at most one in x and in y, every marked voxel lies within half a voxel of the ideal line between the two voxel centres along the minor axis, and exactly max(|dx|,|dy|)+1 voxels are marked before rows outside the region are dropped. Each marked voxel records the triangle and widens its row's extent to include it.",
["inputs"],"all integer end points, all eight octants including axis-aligned, diagonal and degenerate segments",
"The tests exercise only the directions that occur in two small meshes.",
["binvox/voxelize.go"],[("octant dispatch","binvox/voxelize.go rasterizeShellPair"),("first-octant line walk","binvox/voxelize.go firstOctantBressenham"),("row extents","binvox/voxelize.go update")])

p("C14","Row filling sets exactly the shell voxels and the voxels between entry and exit",
"Within a row, filling sets exactly the shell voxels of the region and those non-shell voxels to whose left the last shell voxel that decided a side, counting every triangle once, entered the solid. A shell voxel enters the solid when more of its not yet counted triangles face the negative x direction than the positive, leaves it when fewer do, and otherwise changes nothing.",
["inputs"],"all shells, all triangle normals, all row extents including columns left of the region",
"The tests fill two small closed meshes.",
["binvox/voxelize.go"],[("scanline state","binvox/voxelize.go floodFill")])

p("C15","Slicing a triangle with a layer plane yields points on that plane and triangle",
"Every point reported for a triangle and a layer lies on that layer's plane and on an edge of the triangle, and the two reported points lie on different edges. Every triangle with two edges that properly cross the plane is reported, triangles entirely above or below are not, and every triangle of a mesh is considered once.",
["inputs"],"all triangles and plane heights (edges closer than epsilon to horizontal are treated as parallel)",
"Only two small meshes are sliced in tests.",
["binvox/voxelize.go"],[("edge/plane intersection","binvox/voxelize.go intersectSegment"),("pair selection","binvox/voxelize.go intersectTriZPlane")])

p("C16","A slice image is white exactly where a base voxel is left uncut",
"In the image an agent produces for a layer (with a single division along z), the pixel of voxel (x, y) of the grid, mirrored in y and shifted by the one-pixel border, is white if and only if the base contributed that voxel and no cut did, regardless of the order in which base and cut voxels arrive and of repetitions. All other pixels, including the border, are black.",
["inputs","schedules"],"every sequence and order of base and cut voxels, every image size",
"There are no tests for the agent.",
["stl2svx/agent/agent.go"],[("pixel map","stl2svx/agent/agent.go imager"),("channel from voxelizer to imager","stl2svx/agent/agent.go SliceJob")])

p("C18","STL data is parsed exactly or rejected, never crashing the server",
"For every byte string the slave server's STL parser terminates without crashing: it returns either an error or a mesh. Binary data whose size agrees with its record count yields exactly one triangle per record with the record's vertices in order, other data (if not shorter than a binary header, which is an error) is read as text and yields exactly one triangle per three vertex lines in order, and a vertex count that is not a multiple of three is an error.",
["inputs"],"every byte string, every triangle count",
"There are no tests for the server.",
["server/stldice-slave/stldice-slave.go"],[("format detection","server/stldice-slave/stldice-slave.go stlToMesh"),("text parser","server/stldice-slave/stldice-slave.go loadSTLA"),("binary parser","server/stldice-slave/stldice-slave.go loadSTLB")])

p("C19","Merging STL files keeps every triangle and reports every failure, race-free",
"Merging a list of STL files returns a mesh with exactly the triangles of all files, counted with repetition, for any number of workers of at least one and any schedule. If any file cannot be loaded an error is returned and no mesh, at most the given number of files is loaded at once, and all shared state is accessed under a lock.",
["schedules","inputs","fault_sequences"],"every file list, worker count, schedule and set of failing files",
"There are no tests for the merge.",
["stl/stl.go"],[("worker pool","stl/stl.go Merge"),("mesh lock","stl/stl.go Merge")])

p("C20","Dicing splits a model into abutting regions on one common grid",
"When a model is diced into nx by ny by nz regions, every region has the same positive size in voxels and the same resolution, equal to the requested number of voxels along the longest axis divided by that axis' length, and region (i, j, k) is placed exactly (i, j, k) region sizes from the minimum corner of the bounding box, so that neighbouring regions abut without gap or overlap. The regions never extend beyond the voxel grid covering the bounding box, and too many divisions are an error.",
["inputs","configurations"],"all bounding boxes, dimensions and divisions",
"There are no tests for dicing.",
["stl2svx/stl/stl.go","stl2svx/agent/agent.go","cmd/stldice/stldice.go"],[("region size","stl2svx/stl/stl.go New"),("region placement","stl2svx/agent/agent.go generateMR, cmd/stldice/stldice.go diceMesh")])

p("C22","A model file write that fails is reported as failed",
"If any write to the underlying file fails while a binvox, vshell or vox model is written, at the header or at any later point, the writer returns an error; it returns success only if every write succeeded.",
["fault_sequences","inputs"],"a failure at any write call, for any model",
"No test injects write errors.",
["binvox/write.go","vshell/write.go","cmd/voxcut/voxcut.go"],[("error checks after each write","binvox/write.go write, vshell/write.go write, cmd/voxcut/voxcut.go writeVOX")])

p("C23","An exported .vox file holds exactly the model's voxels in valid chunks",
"An exported vox file consists of a header and MAIN, SIZE and XYZI chunks whose declared sizes equal the bytes that follow, whose SIZE covers every voxel, and whose voxel list holds each white voxel of the model exactly once with its coordinates, for every model whose coordinates fit the format. Models whose coordinates do not fit are rejected with an error instead of being written wrong.",
["inputs"],"every voxel set",
"No test writes a vox file.",
["cmd/voxcut/voxcut.go"],[("chunk writer","cmd/voxcut/voxcut.go writeVOX")])

p("C24","Loading an SVX slice adds exactly the voxels its image marks dense",
"Scanning a slice image adds voxel (x, y, z) for exactly those pixels (x, y) whose grey value is at least 128, for images of any bounds, at the slice's own z, and keeps all voxels of other slices.",
["inputs"],"every image content, bounds and slice order",
"The test parses a manifest only.",
["cmd/svx2stl/main.go"],[("threshold scan","cmd/svx2stl/main.go scanImage")])

p("C25","The triangle order is a strict total order on vertex coordinates",
"The comparison used to sort triangles is irreflexive, asymmetric and transitive, and two triangles are unordered only if all nine vertex coordinates are equal, so that a sorted mesh does not depend on the order in which the triangles were produced.",
["inputs"],"all finite triangle coordinates",
"The tests sort fixed meshes with it, which does not check the order laws.",
["binvox/manifold.go"],[("lexicographic comparison","binvox/manifold.go TriangleLess")])

p("C28","An agent is leased to at most one slice job at a time",
"The master hands an idle agent to at most one slice at a time: handing it out removes it from the idle set under the lock, an agent only becomes idle by registering or by finishing the slice it was handed, and no other agent's state changes. All access to the idle set happens under its lock.",
["schedules","histories"],"every interleaving of registrations, hand-outs and completions",
"There are no tests for the master.",
["stl2svx/master/master.go"],[("idle set and lock","stl2svx/master/master.go getIdleAgent, RegisterAgent, runAgent")])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for q in P:f.write(json.dumps(q)+"\n")
print(len(P))
