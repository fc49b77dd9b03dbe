From 1cb192a9bca86fed8ea29fbbf295b9d03c24d596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 01/52] fix: UnusedID skips used identifiers when some are zero
 or duplicated

---
 core.go | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/core.go b/core.go
index 0d2d16a..840d9dd 100644
--- a/core.go
+++ b/core.go
@@ -7,7 +7,6 @@ import (
 	"encoding/xml"
 	"image/color"
 	"io"
-	"sort"
 	"sync"
 
 	"github.com/hpinc/go3mf/spec"
@@ -137,30 +136,20 @@ type Resources struct {
 
 // UnusedID returns the lowest unused ID.
 func (rs *Resources) UnusedID() uint32 {
-	if len(rs.Assets) == 0 && len(rs.Objects) == 0 {
-		return 1
+	used := make(map[uint32]struct{}, len(rs.Assets)+len(rs.Objects))
+	for _, r := range rs.Assets {
+		used[r.Identify()] = struct{}{}
 	}
-	ids := make([]int, len(rs.Assets)+len(rs.Objects)+1)
-	ids[0] = 0
-	for i, r := range rs.Assets {
-		id := r.Identify()
-		ids[i+1] = int(id)
+	for _, o := range rs.Objects {
+		used[o.ID] = struct{}{}
 	}
-	for i, o := range rs.Objects {
-		ids[len(rs.Assets)+i+1] = int(o.ID)
-	}
-	sort.Ints(ids)
-	lowest := 0
-	for i, id := range ids {
-		if id != i {
-			lowest = i
-			break
+	lowest := uint32(1)
+	for {
+		if _, ok := used[lowest]; !ok {
+			return lowest
 		}
+		lowest++
 	}
-	if lowest == 0 {
-		lowest = ids[len(ids)-1] + 1
-	}
-	return uint32(lowest)
 }
 
 // FindObject returns the resource with the target ID.
-- 
2.43.0


From afe767b562ca572ca39f60804900cc4b18b86886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:04 +0000
Subject: [PATCH 02/52] fix: merge vertices by their grid cell for every
 coordinate

Coordinates beyond 2147 overflowed the int32 grid, and the float32
division merged distinct large coordinates, so different vertices were
given the same index.
---
 math.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/math.go b/math.go
index 4612e0b..9982972 100644
--- a/math.go
+++ b/math.go
@@ -35,20 +35,21 @@ func newPairEntry(data1, data2 uint32) pairEntry {
 	return pairEntry{data2, data1}
 }
 
-// vec3I represents a 3D vector typed as int32
+// vec3I represents a 3D vector with integral coordinates.
+// They are stored as float64 so every finite float32 can be represented.
 type vec3I struct {
-	X int32 // X coordinate
-	Y int32 // Y coordinate
-	Z int32 // Z coordinate
+	X float64 // X coordinate
+	Y float64 // Y coordinate
+	Z float64 // Z coordinate
 }
 
 const micronsAccuracy = 1e-6
 
 func newvec3IFromVec3(vec Point3D) vec3I {
 	a := vec3I{
-		X: int32(math.Floor(float64(vec.X() / micronsAccuracy))),
-		Y: int32(math.Floor(float64(vec.Y() / micronsAccuracy))),
-		Z: int32(math.Floor(float64(vec.Z() / micronsAccuracy))),
+		X: math.Round(float64(vec.X()) * (1 / micronsAccuracy)),
+		Y: math.Round(float64(vec.Y()) * (1 / micronsAccuracy)),
+		Z: math.Round(float64(vec.Z()) * (1 / micronsAccuracy)),
 	}
 	return a
 }
-- 
2.43.0


From 8804a70732bb444a513e1c497b758e292a5034a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 03/52] fix: SetMissingUUIDs also completes a build attribute
 without UUID

---
 production/production.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/production/production.go b/production/production.go
index ce4dce7..d7f7f0b 100644
--- a/production/production.go
+++ b/production/production.go
@@ -127,8 +127,11 @@ func (p *ComponentAttr) getUUID() string {
 // SetMissingUUIDs traverse all the model tree setting
 // all missing UUID attributes.
 func SetMissingUUIDs(m *go3mf.Model) {
-	if GetBuildAttr(&m.Build) == nil {
+	bext := GetBuildAttr(&m.Build)
+	if bext == nil {
 		m.Build.AnyAttr = append(m.Build.AnyAttr, &BuildAttr{UUID: uuid.New()})
+	} else if bext.UUID == "" {
+		bext.UUID = uuid.New()
 	}
 	for _, item := range m.Build.Items {
 		ext := GetItemAttr(item)
-- 
2.43.0


From eb0684147f8da2065f3ddaafcaa9a7ed89c092c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:44 +0000
Subject: [PATCH 04/52] fix: look up nested components in the part their parent
 was found in

The bounding box of a component with a path was computed looking up its
own components in the part of the outermost object.
---
 core.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core.go b/core.go
index 840d9dd..e34207a 100644
--- a/core.go
+++ b/core.go
@@ -412,7 +412,7 @@ func (o *Object) boundingBox(m *Model, path string) Box {
 	box := newLimitBox()
 	for _, c := range o.Components.Component {
 		if obj, ok := m.FindObject(c.ObjectPath(path), c.ObjectID); ok {
-			cbox := obj.boundingBox(m, path)
+			cbox := obj.boundingBox(m, c.ObjectPath(path))
 			if cbox != emptyBox {
 				box = box.extend(c.Transform.MulBox(cbox))
 			}
-- 
2.43.0


From 836caca00c1230a22376c3e5375a44cff64d03c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:45 +0000
Subject: [PATCH 05/52] fix: bounding boxes ignore only objects without
 vertices

Boxes degenerated to the origin were dropped, and an inverted box was
returned when no item resolved to a vertex.
---
 core.go | 31 ++++++++++++++++++-------------
 math.go |  2 --
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/core.go b/core.go
index e34207a..77918bc 100644
--- a/core.go
+++ b/core.go
@@ -229,23 +229,26 @@ func (m *Model) BoundingBox() Box {
 	}
 	var wg sync.WaitGroup
 	var mu sync.Mutex
-	box := newLimitBox()
+	box, empty := newLimitBox(), true
 	wg.Add(len(m.Build.Items))
 	for i := range m.Build.Items {
 		go func(i int) {
 			defer wg.Done()
 			item := m.Build.Items[i]
 			if o, ok := m.FindObject(item.ObjectPath(), item.ObjectID); ok {
-				ibox := o.boundingBox(m, item.ObjectPath())
-				if ibox != emptyBox {
+				if ibox, ok := o.boundingBox(m, item.ObjectPath()); ok {
 					mu.Lock()
 					box = box.extend(item.Transform.MulBox(ibox))
+					empty = false
 					mu.Unlock()
 				}
 			}
 		}(i)
 	}
 	wg.Wait()
+	if empty {
+		return Box{}
+	}
 	return box
 }
 
@@ -402,23 +405,25 @@ type Object struct {
 	AnyAttr    spec.AnyAttr
 }
 
-func (o *Object) boundingBox(m *Model, path string) Box {
+// boundingBox returns the bounding box of the object and
+// whether it has any vertex.
+func (o *Object) boundingBox(m *Model, path string) (Box, bool) {
 	if o.Mesh != nil {
-		return o.Mesh.BoundingBox()
+		return o.Mesh.BoundingBox(), len(o.Mesh.Vertices.Vertex) != 0
 	}
-	if o.Components == nil || len(o.Components.Component) == 0 {
-		return Box{}
+	if o.Components == nil {
+		return Box{}, false
 	}
-	box := newLimitBox()
+	box, ok := newLimitBox(), false
 	for _, c := range o.Components.Component {
-		if obj, ok := m.FindObject(c.ObjectPath(path), c.ObjectID); ok {
-			cbox := obj.boundingBox(m, c.ObjectPath(path))
-			if cbox != emptyBox {
-				box = box.extend(c.Transform.MulBox(cbox))
+		cpath := c.ObjectPath(path)
+		if obj, found := m.FindObject(cpath, c.ObjectID); found {
+			if cbox, nonEmpty := obj.boundingBox(m, cpath); nonEmpty {
+				box, ok = box.extend(c.Transform.MulBox(cbox)), true
 			}
 		}
 	}
-	return box
+	return box, ok
 }
 
 // A Components is an in memory representation of the 3MF components.
diff --git a/math.go b/math.go
index 9982972..9daba4a 100644
--- a/math.go
+++ b/math.go
@@ -201,8 +201,6 @@ type Box struct {
 	Max Point3D
 }
 
-var emptyBox = Box{}
-
 func newLimitBox() Box {
 	return Box{
 		Min: Point3D{math.MaxFloat32, math.MaxFloat32, math.MaxFloat32},
-- 
2.43.0


From fb712ae000a987843f8e94122157f8560c8f0639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:46 +0000
Subject: [PATCH 06/52] fix: bounding box of recursive components terminates

---
 core.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/core.go b/core.go
index 77918bc..8fc5fce 100644
--- a/core.go
+++ b/core.go
@@ -406,19 +406,26 @@ type Object struct {
 }
 
 // boundingBox returns the bounding box of the object and
-// whether it has any vertex.
-func (o *Object) boundingBox(m *Model, path string) (Box, bool) {
+// whether it has any vertex. Components which lead back to one of
+// the parents are ignored.
+func (o *Object) boundingBox(m *Model, path string, parents ...*Object) (Box, bool) {
 	if o.Mesh != nil {
 		return o.Mesh.BoundingBox(), len(o.Mesh.Vertices.Vertex) != 0
 	}
 	if o.Components == nil {
 		return Box{}, false
 	}
+	for _, p := range parents {
+		if p == o {
+			return Box{}, false
+		}
+	}
+	parents = append(parents, o)
 	box, ok := newLimitBox(), false
 	for _, c := range o.Components.Component {
 		cpath := c.ObjectPath(path)
 		if obj, found := m.FindObject(cpath, c.ObjectID); found {
-			if cbox, nonEmpty := obj.boundingBox(m, cpath); nonEmpty {
+			if cbox, nonEmpty := obj.boundingBox(m, cpath, parents...); nonEmpty {
 				box, ok = box.extend(c.Transform.MulBox(cbox)), true
 			}
 		}
-- 
2.43.0


From 09278d75adb9ef0da53856dc6588c60849b70ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:48 +0000
Subject: [PATCH 07/52] fix: MulBox transforms every corner of the box

Only two corners were transformed, so rotated boxes did not contain
their transformed points.
---
 math.go | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/math.go b/math.go
index 9daba4a..e544a09 100644
--- a/math.go
+++ b/math.go
@@ -174,23 +174,19 @@ func (m1 Matrix) Mul2D(v Point2D) Point2D {
 }
 
 // MulBox performs a "matrix product" between this matrix
-// and a box
+// and a box. The result is the smallest axis-aligned box
+// that contains the transformed one.
 func (m1 Matrix) MulBox(b Box) Box {
 	if m1[15] == 0 {
 		return b
 	}
-	box := Box{
-		Min: m1.Mul3D(b.Min),
-		Max: m1.Mul3D(b.Max),
-	}
-	if box.Min.X() > box.Max.X() {
-		box.Min[0], box.Max[0] = box.Max[0], box.Min[0]
-	}
-	if box.Min.Y() > box.Max.Y() {
-		box.Min[1], box.Max[1] = box.Max[1], box.Min[1]
-	}
-	if box.Min.Z() > box.Max.Z() {
-		box.Min[2], box.Max[2] = box.Max[2], box.Min[2]
+	box := newLimitBox()
+	for _, x := range [2]float32{b.Min.X(), b.Max.X()} {
+		for _, y := range [2]float32{b.Min.Y(), b.Max.Y()} {
+			for _, z := range [2]float32{b.Min.Z(), b.Max.Z()} {
+				box = box.extendPoint(m1.Mul3D(Point3D{x, y, z}))
+			}
+		}
 	}
 	return box
 }
-- 
2.43.0


From 50c0535aa276b7f2c19e6d84d6330bf6a1b0fba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:25 +0000
Subject: [PATCH 08/52] fix: slice transform validation follows every path from
 the build once

Recursive components made it overflow the stack, items and nested
components were looked up in the part of the validated object, and a
non planar transform of an outer component was not noticed.
---
 slices/validate.go | 66 +++++++++++++++++++++++++---------------------
 1 file changed, 36 insertions(+), 30 deletions(-)

diff --git a/slices/validate.go b/slices/validate.go
index 1a5164d..69e3ab3 100644
--- a/slices/validate.go
+++ b/slices/validate.go
@@ -35,7 +35,7 @@ func validateObject(m *go3mf.Model, path string, obj *go3mf.Object) error {
 		errs = errors.Append(errs, errors.NewMissingFieldError(attrSliceRefID))
 	} else if r, ok := res.FindAsset(sti.SliceStackID); ok {
 		if r, ok := r.(*SliceStack); ok {
-			if !validateBuildTransforms(m, path, obj.ID) {
+			if !validateBuildTransforms(m, obj) {
 				errs = errors.Append(errs, ErrSliceInvalidTranform)
 			}
 			if obj.Type == go3mf.ObjectTypeModel || obj.Type == go3mf.ObjectTypeSolidSupport {
@@ -185,44 +185,50 @@ func checkAllClosed(m *go3mf.Model, r *SliceStack) bool {
 	return true
 }
 
-func validateBuildTransforms(m *go3mf.Model, path string, id uint32) bool {
+// validateBuildTransforms checks that the object is only placed using planar transforms,
+// including the ones of the items and components it is nested in.
+func validateBuildTransforms(m *go3mf.Model, obj *go3mf.Object) bool {
+	w := transformWalker{m, obj, make(map[placement]struct{})}
 	for _, item := range m.Build.Items {
-		targetPath := item.ObjectPath()
-		if targetPath == "" {
-			targetPath = path
-		}
-		if item.ObjectID == id && targetPath == path {
-			if item.HasTransform() && !validTransform(item.Transform) {
-				return false
-			}
-		}
-		if o, ok := m.FindObject(targetPath, item.ObjectID); ok {
-			if !validateObjectTransforms(m, o, path, id) {
-				return false
-			}
+		planar := !item.HasTransform() || validTransform(item.Transform)
+		if !w.validate(item.ObjectPath(), item.ObjectID, planar) {
+			return false
 		}
 	}
 	return true
 }
 
-func validateObjectTransforms(m *go3mf.Model, o *go3mf.Object, path string, id uint32) bool {
-	if o.Components == nil {
+// placement identifies an object that has been reached
+// using only planar transforms or not.
+type placement struct {
+	path   string
+	obj    *go3mf.Object
+	planar bool
+}
+
+type transformWalker struct {
+	m       *go3mf.Model
+	target  *go3mf.Object
+	visited map[placement]struct{} // avoid circular references
+}
+
+func (w *transformWalker) validate(path string, id uint32, planar bool) bool {
+	o, ok := w.m.FindObject(path, id)
+	if !ok {
 		return true
 	}
+	if o == w.target && !planar {
+		return false
+	}
+	p := placement{path, o, planar}
+	if _, ok := w.visited[p]; ok || o.Components == nil {
+		return true
+	}
+	w.visited[p] = struct{}{}
 	for _, c := range o.Components.Component {
-		if c.ObjectID == id && c.ObjectPath(path) == path {
-			if c.HasTransform() && !validTransform(c.Transform) {
-				return false
-			}
-		}
-		if c.ObjectID == o.ID && c.ObjectPath(path) == path { // avoid circular references
-			break
-		} else {
-			if o1, ok := m.FindObject(c.ObjectPath(path), c.ObjectID); ok {
-				if !validateObjectTransforms(m, o1, path, id) {
-					return false
-				}
-			}
+		planar := planar && (!c.HasTransform() || validTransform(c.Transform))
+		if !w.validate(c.ObjectPath(path), c.ObjectID, planar) {
+			return false
 		}
 	}
 	return true
-- 
2.43.0


From b92323ddf99b9f5e64bd0c9e827dfb9b4017cf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 09/52] fix: validate the metadata of objects

---
 validate.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/validate.go b/validate.go
index 1f7f111..9b1a4c3 100644
--- a/validate.go
+++ b/validate.go
@@ -214,6 +214,7 @@ func (r *Object) Validate(m *Model, path string) error {
 	if (r.Mesh != nil && r.Components != nil) || (r.Mesh == nil && r.Components == nil) {
 		errs = errors.Append(errs, errors.ErrInvalidObject)
 	}
+	errs = errors.Append(errs, checkMetadadata(m, r.Metadata.Metadata))
 	if r.Mesh != nil {
 		if r.PID != 0 {
 			if a, ok := res.FindAsset(r.PID); ok {
-- 
2.43.0


From ed84e35d7b1b9bb11839d74dbc5bdb9e9889ac32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 10/52] fix: reject braced UUIDs without braces

---
 uuid/uuid.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uuid/uuid.go b/uuid/uuid.go
index 27b62d4..ae995aa 100644
--- a/uuid/uuid.go
+++ b/uuid/uuid.go
@@ -105,6 +105,9 @@ func validateUUID(s string) error {
 
 	// {xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx}
 	case 36 + 2:
+		if s[0] != '{' || s[len(s)-1] != '}' {
+			return errors.New("production: invalid UUID format")
+		}
 		s = s[1:]
 
 	// xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
-- 
2.43.0


From 253bb4cb906b12633bcd4ac095c90b8148535b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:18 +0000
Subject: [PATCH 11/52] fix: bounds of the indices of multiproperties and
 composite materials

---
 materials/validate.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/materials/validate.go b/materials/validate.go
index a3e8eed..e45a0b2 100644
--- a/materials/validate.go
+++ b/materials/validate.go
@@ -5,10 +5,12 @@ package materials
 
 import (
 	"image/color"
+	"math"
 	"strings"
 
 	"github.com/hpinc/go3mf"
 	"github.com/hpinc/go3mf/errors"
+	"github.com/hpinc/go3mf/spec"
 )
 
 func (Spec) Validate(model interface{}, path string, asset interface{}) error {
@@ -111,18 +113,17 @@ func validateMultiProps(m *go3mf.Model, path string, r *MultiProperties) (errs e
 		lengths           = make([]int, len(r.PIDs))
 	)
 	for j, pid := range r.PIDs {
+		lengths[j] = math.MaxInt // unknown
 		if pr, ok := m.FindAsset(path, pid); ok {
-			switch pr := pr.(type) {
+			switch pr.(type) {
 			case *go3mf.BaseMaterials:
 				if j != 0 {
 					errs = errors.Append(errs, ErrMaterialMulti)
 				}
-				lengths[j] = len(pr.Materials)
 			case *CompositeMaterials:
 				if j != 0 {
 					errs = errors.Append(errs, ErrMaterialMulti)
 				}
-				lengths[j] = len(pr.Composites)
 			case *MultiProperties:
 				errs = errors.Append(errs, ErrMultiRefMulti)
 			case *ColorGroup:
@@ -130,7 +131,9 @@ func validateMultiProps(m *go3mf.Model, path string, r *MultiProperties) (errs e
 					errs = errors.Append(errs, ErrMultiColors)
 				}
 				colorCount++
-				lengths[j] = len(pr.Colors)
+			}
+			if pr, ok := pr.(spec.PropertyGroup); ok {
+				lengths[j] = pr.Len()
 			}
 		} else if !resourceUndefined {
 			resourceUndefined = true
@@ -139,7 +142,7 @@ func validateMultiProps(m *go3mf.Model, path string, r *MultiProperties) (errs e
 	}
 	for j, multi := range r.Multis {
 		for k, index := range multi.PIndices {
-			if k < len(r.PIDs) && lengths[k] < int(index) {
+			if k < len(r.PIDs) && int(index) >= lengths[k] {
 				errs = errors.Append(errs, errors.WrapIndex(errors.ErrIndexOutOfBounds, attrMulti, j))
 				break
 			}
@@ -157,7 +160,7 @@ func validateCompositeMat(m *go3mf.Model, path string, r *CompositeMaterials) (e
 	} else if mat, ok := m.FindAsset(path, r.MaterialID); ok {
 		if bm, ok := mat.(*go3mf.BaseMaterials); ok {
 			for _, index := range r.Indices {
-				if int(index) > len(bm.Materials) {
+				if int(index) >= len(bm.Materials) {
 					errs = errors.Append(errs, errors.ErrIndexOutOfBounds)
 					break
 				}
-- 
2.43.0


From 919e4fb31482776082fc9c9a35736c607cef063b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:19 +0000
Subject: [PATCH 12/52] fix: beam sets refer to beams of the lattice

---
 beamlattice/validate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beamlattice/validate.go b/beamlattice/validate.go
index 887dc16..8d94ca5 100644
--- a/beamlattice/validate.go
+++ b/beamlattice/validate.go
@@ -61,7 +61,7 @@ func validateObject(m *go3mf.Model, path string, obj *go3mf.Object) error {
 	}
 	for i, set := range bl.BeamSets.BeamSet {
 		for _, ref := range set.Refs {
-			if int(ref) >= len(set.Refs) {
+			if int(ref) >= len(bl.Beams.Beam) {
 				errs = errors.Append(errs, errors.WrapIndex(errors.ErrIndexOutOfBounds, attrBeamSet, i))
 				break
 			}
-- 
2.43.0


From 44af3062d343698e32d4edef5c5b842e2ca3de78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:20 +0000
Subject: [PATCH 13/52] fix: report slice stacks without identifier

---
 slices/validate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slices/validate.go b/slices/validate.go
index 69e3ab3..93073e7 100644
--- a/slices/validate.go
+++ b/slices/validate.go
@@ -73,6 +73,9 @@ func validateAsset(m *go3mf.Model, path string, r go3mf.Asset) error {
 		return nil
 	}
 	var errs error
+	if st.ID == 0 {
+		errs = errors.Append(errs, errors.ErrMissingID)
+	}
 	if (len(st.Slices) != 0 && len(st.Refs) != 0) ||
 		(len(st.Slices) == 0 && len(st.Refs) == 0) {
 		errs = errors.Append(errs, ErrSlicesAndRefs)
-- 
2.43.0


From 4fc7f21023d3c1cadae832b762fe5559c61661b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:21 +0000
Subject: [PATCH 14/52] fix: accept beams with two radii and report r2 without
 r1

---
 beamlattice/validate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beamlattice/validate.go b/beamlattice/validate.go
index 8d94ca5..46aa965 100644
--- a/beamlattice/validate.go
+++ b/beamlattice/validate.go
@@ -55,7 +55,8 @@ func validateObject(m *go3mf.Model, path string, obj *go3mf.Object) error {
 				errs = errors.Append(errs, errors.WrapIndex(errors.ErrIndexOutOfBounds, attrBeam, i))
 			}
 		}
-		if b.Radius[0] != 0 && b.Radius[0] != bl.Radius && b.Radius[0] != b.Radius[1] {
+		r1, r2 := b.Radius[0], b.Radius[1]
+		if (r1 == 0 && r2 != 0) || (r2 == 0 && r1 != 0 && r1 != bl.Radius) {
 			errs = errors.Append(errs, errors.WrapIndex(ErrLatticeBeamR2, attrBeam, i))
 		}
 	}
-- 
2.43.0


From df6db12901565e0e6b91f9e774b1ebc860537625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:32 +0000
Subject: [PATCH 15/52] fix: pair end tags with their own start tag when
 decoding

Elements were closed by comparing names only, so an ignored or unknown
element nested inside another one of the same name closed the outer one
early, lost content or made the decoder panic.
---
 read.go | 45 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/read.go b/read.go
index 9a474e0..1296f74 100644
--- a/read.go
+++ b/read.go
@@ -72,17 +72,24 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 
 	var (
 		currentDecoder spec.ElementDecoder
-		currentName    xml.Name
 		errs           specerr.List
+		// depth is the number of open elements, below the one handled
+		// by currentDecoder, which do not have their own decoder.
+		depth int
 	)
 	currentDecoder = &topLevelDecoder{isRoot: isRoot, model: model, path: path}
 	var err error
 	x.OnStart = func(tp xml3mf.StartElement) {
 		if childDecoder, ok := currentDecoder.(spec.ChildElementDecoder); ok {
+			if depth > 0 {
+				depth++
+				return
+			}
 			i, tmpDecoder := childDecoder.Child(tp.Name)
-			if tmpDecoder != nil {
+			if tmpDecoder == nil {
+				depth++
+			} else {
 				stack = append(stack, stackElement{tmpDecoder, tp.Name, i})
-				currentName = tp.Name
 				currentDecoder = tmpDecoder
 				err := currentDecoder.Start(*(*[]spec.XMLAttr)(unsafe.Pointer(&tp.Attr)))
 				if err != nil {
@@ -94,6 +101,7 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 				}
 			}
 		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
+			depth++
 			var xattrs []xml.Attr
 			if len(tp.Attr) > 0 {
 				xattrs = make([]xml.Attr, len(tp.Attr))
@@ -105,24 +113,35 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 				Name: tp.Name,
 				Attr: xattrs,
 			})
+		} else {
+			depth++
 		}
 	}
 	x.OnEnd = func(tp xml.EndElement) {
-		if currentName == tp.Name {
-			currentDecoder.End()
-			stack = stack[:len(stack)-1]
-			if len(stack) > 0 {
-				element := stack[len(stack)-1]
-				currentDecoder = element.decoder
-				currentName = element.name
+		if depth > 0 {
+			depth--
+			if _, ok := currentDecoder.(spec.ChildElementDecoder); ok {
+				return
 			}
-		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
-			appendDecoder.AppendToken(tp)
+			if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
+				appendDecoder.AppendToken(tp)
+			}
+			return
+		}
+		currentDecoder.End()
+		stack = stack[:len(stack)-1]
+		if len(stack) > 0 {
+			currentDecoder = stack[len(stack)-1].decoder
+		} else {
+			// Anything following the root element is ignored.
+			currentDecoder = new(baseDecoder)
 		}
 	}
 	x.OnChar = func(tp xml.CharData) {
 		if currentDecoder, ok := currentDecoder.(spec.CharDataElementDecoder); ok {
-			currentDecoder.CharData(tp)
+			if depth == 0 {
+				currentDecoder.CharData(tp)
+			}
 		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
 			appendDecoder.AppendToken(tp)
 		}
-- 
2.43.0


From 0a76aab0b8d35c2ecddafde5abdcd7146febf984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:33 +0000
Subject: [PATCH 16/52] fix: copy the text of unknown elements

The text handed over by the tokenizer is only valid until the next token.
---
 read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/read.go b/read.go
index 1296f74..65c867f 100644
--- a/read.go
+++ b/read.go
@@ -143,7 +143,7 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 				currentDecoder.CharData(tp)
 			}
 		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
-			appendDecoder.AppendToken(tp)
+			appendDecoder.AppendToken(tp.Copy())
 		}
 	}
 	var i int
-- 
2.43.0


From e9a67271002462d05de23225d677e24ebd9a1522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:35 +0000
Subject: [PATCH 17/52] fix: do not panic on extension attributes of elements
 the extension does not extend

They are kept as unknown attributes.
---
 spec/spec.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spec/spec.go b/spec/spec.go
index 9faae81..5ec412c 100644
--- a/spec/spec.go
+++ b/spec/spec.go
@@ -104,7 +104,9 @@ func (a AnyAttr) Marshal3MF(x Encoder, start *xml.StartElement) error {
 
 func NewAttrGroup(namespace string, parent xml.Name) AttrGroup {
 	if ext, ok := Load(namespace); ok {
-		return ext.NewAttrGroup(parent)
+		if attr := ext.NewAttrGroup(parent); attr != nil {
+			return attr
+		}
 	}
 	return &UnknownAttrs{
 		Space: namespace,
-- 
2.43.0


From 35bc05472db795f8f0660cccda944747abe7d61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 18/52] fix: ignore extension elements found where they do not
 belong

A beam lattice inside resources made the decoder panic.
---
 decoder.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/decoder.go b/decoder.go
index 7e37521..db5f6a5 100644
--- a/decoder.go
+++ b/decoder.go
@@ -43,7 +43,11 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 		dec := spec.NewElementDecoder(name)
 		child = dec
 		if dec != nil {
-			d.model.Any = append(d.model.Any, dec.Element().(spec.Marshaler))
+			elem, ok := dec.Element().(spec.Marshaler)
+			if !ok {
+				return -1, nil
+			}
+			d.model.Any = append(d.model.Any, elem)
 		}
 		i = -1
 	}
@@ -300,10 +304,14 @@ func (d *resourceDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder
 	} else if ext, ok := spec.Load(name.Space); ok {
 		dec := ext.NewElementDecoder(name)
 		i = len(d.resources.Assets)
-		child = dec
 		if dec != nil {
-			d.resources.Assets = append(d.resources.Assets, dec.Element().(Asset))
+			asset, ok := dec.Element().(Asset)
+			if !ok {
+				return -1, nil
+			}
+			d.resources.Assets = append(d.resources.Assets, asset)
 		}
+		child = dec
 	} else {
 		child = &unknownAssetDecoder{UnknownTokensDecoder: *spec.NewUnknownDecoder(name), resources: d.resources}
 		i = len(d.resources.Assets)
@@ -421,7 +429,11 @@ func (d *meshDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 		dec := spec.NewElementDecoder(name)
 		child = dec
 		if dec != nil {
-			d.resource.Mesh.Any = append(d.resource.Mesh.Any, dec.Element().(spec.Marshaler))
+			elem, ok := dec.Element().(spec.Marshaler)
+			if !ok {
+				return -1, nil
+			}
+			d.resource.Mesh.Any = append(d.resource.Mesh.Any, elem)
 		}
 		i = -1
 	}
-- 
2.43.0


From 4500902be8eec9a2e2e48272080323c9ca54bed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:20 +0000
Subject: [PATCH 19/52] fix: keep the extension elements of a child model in
 that child

They were appended to the root model, from the goroutines decoding the
children and without synchronisation.
---
 decoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index db5f6a5..b967f74 100644
--- a/decoder.go
+++ b/decoder.go
@@ -47,7 +47,11 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 			if !ok {
 				return -1, nil
 			}
-			d.model.Any = append(d.model.Any, elem)
+			if d.isRoot {
+				d.model.Any = append(d.model.Any, elem)
+			} else if child, ok := d.model.Childs[d.path]; ok {
+				child.Any = append(child.Any, elem)
+			}
 		}
 		i = -1
 	}
-- 
2.43.0


From 67d928bae5ddb38882dce5c51663fc2e989bf8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:21 +0000
Subject: [PATCH 20/52] fix: resolve metadata names with the prefixes declared
 by their own part

Child models are decoded before the root one, so none of their metadata
prefixes was ever known.
---
 decoder.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index b967f74..8ed3b44 100644
--- a/decoder.go
+++ b/decoder.go
@@ -19,6 +19,8 @@ type modelDecoder struct {
 	model  *Model
 	isRoot bool
 	path   string
+	// scope holds the extensions declared by the part being decoded.
+	scope *Model
 }
 
 func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
@@ -26,7 +28,7 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 		switch name.Local {
 		case attrResources:
 			resources, _ := d.model.FindResources(d.path)
-			child = &resourceDecoder{resources: resources, model: d.model}
+			child = &resourceDecoder{resources: resources, model: d.scope}
 			i = -1
 		case attrBuild:
 			if d.isRoot {
@@ -59,7 +61,17 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 }
 
 func (d *modelDecoder) Start(attrs []spec.XMLAttr) (err error) {
+	d.scope = d.model
 	if !d.isRoot {
+		d.scope = new(Model)
+		for _, a := range attrs {
+			if a.Name.Space == attrXmlns {
+				d.scope.Extensions = append(d.scope.Extensions, Extension{
+					Namespace: string(a.Value),
+					LocalName: a.Name.Local,
+				})
+			}
+		}
 		return
 	}
 	var requiredExts []string
-- 
2.43.0


From cda71d0047a516a9dec68c160df38dd9a63b75be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 21/52] fix: return the error that made decoding a child model
 fail

It was stored without synchronisation and overwritten by the cancellation
it provokes.
---
 read.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/read.go b/read.go
index 65c867f..f277ef2 100644
--- a/read.go
+++ b/read.go
@@ -231,10 +231,11 @@ func (d *Decoder) processRootModel(ctx context.Context, rootFile packageFile, mo
 	return nil
 }
 
-func (d *Decoder) processNonRootModels(ctx context.Context, model *Model) (errs error) {
+func (d *Decoder) processNonRootModels(ctx context.Context, model *Model) error {
 	var (
 		wg                 sync.WaitGroup
 		nonRootModelsCount = len(d.nonRootModels)
+		errs               = make([]error, nonRootModelsCount)
 	)
 	wg.Add(nonRootModelsCount)
 	ctx, cancel := context.WithCancel(ctx)
@@ -242,18 +243,21 @@ func (d *Decoder) processNonRootModels(ctx context.Context, model *Model) (errs
 	for i := 0; i < nonRootModelsCount; i++ {
 		go func(i int) {
 			defer wg.Done()
-			err := d.readChildModel(ctx, i, model)
-			if err != nil {
-				errs = err
+			errs[i] = d.readChildModel(ctx, i, model)
+			if errs[i] != nil {
 				cancel()
 			}
 		}(i)
 	}
 	wg.Wait()
-	if errs != nil {
-		return errs
+	// A child failing cancels the others, report the cause and not that.
+	var err error
+	for _, e := range errs {
+		if e != nil && (err == nil || err == context.Canceled) {
+			err = e
+		}
 	}
-	return nil
+	return err
 }
 
 func (d *Decoder) processOPC(model *Model) (packageFile, error) {
@@ -332,10 +336,8 @@ func (d *Decoder) readChildModel(ctx context.Context, i int, model *Model) error
 	}
 	defer file.Close()
 	err = decodeModelFile(ctx, file, model, attachment.Name(), false, d.Strict)
-	select {
-	case <-ctx.Done():
+	if err == nil {
 		err = ctx.Err()
-	default: // Default is must to avoid blocking
 	}
 	return err
 }
-- 
2.43.0


From 5d3b657446819806151a082c2469a08d2bb72350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:15 +0000
Subject: [PATCH 22/52] fix: do not report success when the context is done

It was not looked at before reading the package nor at the end of a part.
---
 read.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/read.go b/read.go
index f277ef2..3b98483 100644
--- a/read.go
+++ b/read.go
@@ -165,7 +165,7 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 		i++
 	}
 	if err == io.EOF {
-		err = nil
+		err = ctx.Err()
 	}
 	if err == nil && errs.Len() != 0 {
 		if strict || errs.Len() == 1 {
@@ -200,6 +200,9 @@ func (d *Decoder) Decode(model *Model) error {
 
 // DecodeContext reads the 3mf file and unmarshall its content into the model.
 func (d *Decoder) DecodeContext(ctx context.Context, model *Model) error {
+	if err := ctx.Err(); err != nil {
+		return err
+	}
 	rootFile, err := d.processOPC(model)
 	if err != nil {
 		return err
-- 
2.43.0


From 13ce7955a2384bc28287bc2990a7d56cd41e1bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 23/52] fix: decode each child model once

A part related twice, or the root part related to itself, was decoded
several times and concurrently into the same model.
---
 read.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/read.go b/read.go
index 3b98483..d689bb5 100644
--- a/read.go
+++ b/read.go
@@ -267,6 +267,7 @@ func (d *Decoder) processOPC(model *Model) (packageFile, error) {
 	if err := d.p.Open(d.flate); err != nil {
 		return nil, err
 	}
+	d.nonRootModels = nil
 	var rootFile packageFile
 	for _, r := range d.p.Relationships() {
 		if r.Type == RelType3DModel {
@@ -296,6 +297,9 @@ func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, is
 		if file, ok := modelFile.FindFileFromName(rel.Path); ok {
 			if isRoot {
 				if rel.Type == RelType3DModel {
+					if file.Name() == modelFile.Name() || d.isNonRootModel(file) {
+						continue
+					}
 					d.nonRootModels = append(d.nonRootModels, file)
 					if model.Childs == nil {
 						model.Childs = make(map[string]*ChildModel)
@@ -315,6 +319,15 @@ func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, is
 	}
 }
 
+func (d *Decoder) isNonRootModel(file packageFile) bool {
+	for _, f := range d.nonRootModels {
+		if f.Name() == file.Name() {
+			return true
+		}
+	}
+	return false
+}
+
 func (d *Decoder) addAttachment(attachments []Attachment, file packageFile) []Attachment {
 	for _, att := range attachments {
 		if strings.EqualFold(att.Path, file.Name()) {
-- 
2.43.0


From 1f6323c3f1fcb62a967f73e2c8f5d4fff62c8e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:18 +0000
Subject: [PATCH 24/52] fix: report the attachments that cannot be read

They were silently left out of the model.
---
 read.go | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/read.go b/read.go
index d689bb5..b733c9f 100644
--- a/read.go
+++ b/read.go
@@ -277,13 +277,19 @@ func (d *Decoder) processOPC(model *Model) (packageFile, error) {
 				return nil, errors.New("package root model points to an unexisting file")
 			}
 			model.Path = rootFile.Name()
-			d.extractCoreAttachments(rootFile, model, true)
+			if err := d.extractCoreAttachments(rootFile, model, true); err != nil {
+				return nil, err
+			}
 			for _, file := range d.nonRootModels {
-				d.extractCoreAttachments(file, model, false)
+				if err := d.extractCoreAttachments(file, model, false); err != nil {
+					return nil, err
+				}
 			}
 		} else if att, ok := d.p.FindFileFromName(r.Path); ok {
 			model.RootRelationships = append(model.RootRelationships, r)
-			model.Attachments = d.addAttachment(model.Attachments, att)
+			if err := d.addAttachment(model, att); err != nil {
+				return nil, err
+			}
 		}
 	}
 	if rootFile == nil {
@@ -292,7 +298,7 @@ func (d *Decoder) processOPC(model *Model) (packageFile, error) {
 	return rootFile, nil
 }
 
-func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, isRoot bool) {
+func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, isRoot bool) error {
 	for _, rel := range modelFile.Relationships() {
 		if file, ok := modelFile.FindFileFromName(rel.Path); ok {
 			if isRoot {
@@ -306,17 +312,22 @@ func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, is
 					}
 					model.Childs[file.Name()] = new(ChildModel)
 				} else {
-					model.Attachments = d.addAttachment(model.Attachments, file)
+					if err := d.addAttachment(model, file); err != nil {
+						return err
+					}
 					model.Relationships = append(model.Relationships, rel)
 				}
 			} else if rel.Type != RelType3DModel {
 				if child, ok := model.Childs[modelFile.Name()]; ok {
-					model.Attachments = d.addAttachment(model.Attachments, file)
+					if err := d.addAttachment(model, file); err != nil {
+						return err
+					}
 					child.Relationships = append(child.Relationships, rel)
 				}
 			}
 		}
 	}
+	return nil
 }
 
 func (d *Decoder) isNonRootModel(file packageFile) bool {
@@ -328,20 +339,22 @@ func (d *Decoder) isNonRootModel(file packageFile) bool {
 	return false
 }
 
-func (d *Decoder) addAttachment(attachments []Attachment, file packageFile) []Attachment {
-	for _, att := range attachments {
+func (d *Decoder) addAttachment(model *Model, file packageFile) error {
+	for _, att := range model.Attachments {
 		if strings.EqualFold(att.Path, file.Name()) {
-			return attachments
+			return nil
 		}
 	}
-	if buff, err := copyFile(file); err == nil {
-		return append(attachments, Attachment{
-			Path:        file.Name(),
-			Stream:      buff,
-			ContentType: file.ContentType(),
-		})
+	buff, err := copyFile(file)
+	if err != nil {
+		return err
 	}
-	return attachments
+	model.Attachments = append(model.Attachments, Attachment{
+		Path:        file.Name(),
+		Stream:      buff,
+		ContentType: file.ContentType(),
+	})
+	return nil
 }
 
 func (d *Decoder) readChildModel(ctx context.Context, i int, model *Model) error {
-- 
2.43.0


From dcb717c1904695569806a20feb90150ef11fb720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:20 +0000
Subject: [PATCH 25/52] fix: do not read past an error of the underlying reader

An error found while skipping spaces was forgotten and the reader read
again.
---
 internal/xml/xml.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/internal/xml/xml.go b/internal/xml/xml.go
index 2608fec..876226c 100644
--- a/internal/xml/xml.go
+++ b/internal/xml/xml.go
@@ -31,12 +31,6 @@ type bufioReader struct {
 const maxConsecutiveEmptyReads = 100
 const defaultBufSize = 4096
 
-func (b *bufioReader) readErr() error {
-	err := b.err
-	b.err = nil
-	return err
-}
-
 func (b *bufioReader) ReadByte() (byte, error) {
 	if b.nextByte >= 0 {
 		bt := byte(b.nextByte)
@@ -45,7 +39,7 @@ func (b *bufioReader) ReadByte() (byte, error) {
 	}
 	for b.r == b.w {
 		if b.err != nil {
-			return 0, b.readErr()
+			return 0, b.err
 		}
 		b.fill() // buffer is empty
 	}
-- 
2.43.0


From 9543e9155c1825c2b016f4165fe65fd888503de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:22 +0000
Subject: [PATCH 26/52] fix: reject end tags whose prefix is not the one of the
 start tag

---
 internal/xml/xml.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/xml/xml.go b/internal/xml/xml.go
index 876226c..d7e72e9 100644
--- a/internal/xml/xml.go
+++ b/internal/xml/xml.go
@@ -130,18 +130,17 @@ func (d *Decoder) handleStartElement(t StartElement) {
 		}
 	}
 
+	d.pushElement(t.Name)
 	d.translate(&t.Name, true)
 	for i := range t.Attr {
 		d.translate(&t.Attr[i].Name, false)
 	}
-	d.pushElement(t.Name)
 	if d.OnStart != nil {
 		d.OnStart(t)
 	}
 }
 
 func (d *Decoder) handleEndElement(t goxml.EndElement) bool {
-	d.translate(&t.Name, true)
 	if d.popElement(&t) {
 		if d.OnEnd != nil {
 			d.OnEnd(t)
@@ -291,10 +290,12 @@ func (d *Decoder) popElement(t *goxml.EndElement) bool {
 		return false
 	case s.name.Space != name.Space:
 		d.err = d.syntaxError("element <" + s.name.Local + "> in space " + s.name.Space +
-			"closed by </" + name.Local + "> in space " + name.Space)
+			" closed by </" + name.Local + "> in space " + name.Space)
 		return false
 	}
 
+	d.translate(&t.Name, true)
+
 	// Pop stack until a Start or EOF is on the top, undoing the
 	// translations that were associated with the element we just closed.
 	for d.stk != nil && d.stk.kind != stkStart && d.stk.kind != stkEOF {
-- 
2.43.0


From 1a149b6acc2c7850bf7da54e4c871475be5bfe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:23 +0000
Subject: [PATCH 27/52] fix: reject references to characters XML does not allow

A reference to a surrogate was read as the replacement character.
---
 internal/xml/xml.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/xml/xml.go b/internal/xml/xml.go
index d7e72e9..721797f 100644
--- a/internal/xml/xml.go
+++ b/internal/xml/xml.go
@@ -618,7 +618,7 @@ Input:
 					s := string(d.buf.Bytes()[start:])
 					d.buf.WriteByte(';')
 					n, err := strconv.ParseUint(s, base, 64)
-					if err == nil && n <= unicode.MaxRune {
+					if err == nil && isInCharacterRange(n) {
 						text = string(rune(n))
 						haveText = true
 					}
@@ -797,6 +797,15 @@ func (d *Decoder) readName() bool {
 	return true
 }
 
+// Decide whether the given code point is an XML Character, per section 2.2
+// of the XML specification.
+func isInCharacterRange(n uint64) bool {
+	return n == 0x09 || n == 0x0A || n == 0x0D ||
+		n >= 0x20 && n <= 0xD7FF ||
+		n >= 0xE000 && n <= 0xFFFD ||
+		n >= 0x10000 && n <= unicode.MaxRune
+}
+
 func isNameByte(c byte) bool {
 	return 'A' <= c && c <= 'Z' ||
 		'a' <= c && c <= 'z' ||
-- 
2.43.0


From 09d31db268f4c9ca8a0447e087e6f40cf8114c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 28/52] fix: encode every extension element, not only the first
 one

---
 spec/spec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec/spec.go b/spec/spec.go
index 5ec412c..e944ba0 100644
--- a/spec/spec.go
+++ b/spec/spec.go
@@ -125,7 +125,7 @@ type Any []Marshaler
 
 func (e Any) Marshal3MF(x Encoder, start *xml.StartElement) error {
 	for _, ext := range e {
-		if err := ext.Marshal3MF(x, start); err == nil {
+		if err := ext.Marshal3MF(x, start); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 3436456fd37e780098aaece6a1c02c56f320a85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:14 +0000
Subject: [PATCH 29/52] fix: write names with the prefix in scope for their
 name space

The printer used the name space itself as prefix when it was not declared,
ignored the declarations made by the element being written, closing it with
another name, and kept using a prefix after the end of the element that
declared it.
---
 internal/xml/printer.go | 153 +++++++++++++++++++++++++++++++---------
 1 file changed, 121 insertions(+), 32 deletions(-)

diff --git a/internal/xml/printer.go b/internal/xml/printer.go
index 90f8300..c3f93d4 100644
--- a/internal/xml/printer.go
+++ b/internal/xml/printer.go
@@ -3,41 +3,113 @@ package xml
 import (
 	"bufio"
 	"encoding/xml"
+	"strconv"
 )
 
 const (
 	nsXML = "http://www.w3.org/XML/1998/namespace"
 )
 
+// nsDecl is a name space declaration and
+// the depth of the element that carries it.
+type nsDecl struct {
+	prefix, space string
+	depth         int
+}
+
 type Printer struct {
 	*bufio.Writer
 	AutoClose      bool
 	SkipAttrEscape bool
-	attrPrefix     map[string]string // map name space -> prefix
+	decls          []nsDecl // name spaces in scope
+	depth          int
+}
+
+// space returns the name space bound to the given prefix.
+func (p *Printer) space(prefix string) (string, bool) {
+	for i := len(p.decls) - 1; i >= 0; i-- {
+		if p.decls[i].prefix == prefix {
+			return p.decls[i].space, true
+		}
+	}
+	return "", false
 }
 
-// createAttrPrefix finds the name space prefix attribute to use for the given name space,
-// defining a new prefix if necessary. It returns the prefix.
-func (p *Printer) createAttrPrefix(attr *xml.Attr) string {
-	if prefix := p.attrPrefix[attr.Name.Space]; prefix != "" {
-		return prefix
+// prefix returns the prefix bound to the given name space.
+func (p *Printer) prefix(space string) (string, bool) {
+	if space == nsXML {
+		return "xml", true
 	}
-	if attr.Name.Space == nsXML {
-		return "xml"
+	for i := len(p.decls) - 1; i >= 0; i-- {
+		if decl := &p.decls[i]; decl.space == space && decl.prefix != "" {
+			if s, _ := p.space(decl.prefix); s == space {
+				return decl.prefix, true
+			}
+		}
 	}
+	return "", false
+}
 
-	// Need to define a new name space.
-	if p.attrPrefix == nil {
-		p.attrPrefix = make(map[string]string)
+// declare binds a new prefix to the given name space.
+func (p *Printer) declare(space string) nsDecl {
+	for i := 1; ; i++ {
+		prefix := "ns" + strconv.Itoa(i)
+		if _, ok := p.space(prefix); !ok {
+			decl := nsDecl{prefix, space, p.depth}
+			p.decls = append(p.decls, decl)
+			return decl
+		}
 	}
+}
 
-	ns, prefix := attr.Name.Space, attr.Name.Local
-	if attr.Name.Space == "xmlns" {
-		ns, prefix = attr.Value, attr.Name.Local
+// writeDecl writes the declaration of a name space.
+func (p *Printer) writeDecl(decl nsDecl) {
+	p.WriteByte(' ')
+	p.WriteString(xmlnsPrefix)
+	p.WriteByte(':')
+	p.WriteString(decl.prefix)
+	p.WriteString(`="`)
+	p.EscapeString(decl.space)
+	p.WriteByte('"')
+}
+
+// leave ends the scope of an element.
+func (p *Printer) leave() {
+	p.depth--
+	for n := len(p.decls); n > 0 && p.decls[n-1].depth > p.depth; n-- {
+		p.decls = p.decls[:n-1]
 	}
-	p.attrPrefix[ns] = prefix
+}
 
-	return attr.Name.Space
+// writeName writes the prefixed name of an element.
+func (p *Printer) writeName(name xml.Name) {
+	if !p.isDefault(name.Space) {
+		prefix, _ := p.prefix(name.Space)
+		p.WriteString(prefix)
+		p.WriteByte(':')
+	}
+	p.WriteString(name.Local)
+}
+
+// isDefault returns true if the elements in the given name space,
+// which can be empty, do not need a prefix.
+func (p *Printer) isDefault(space string) bool {
+	if space == "" {
+		return true
+	}
+	def, _ := p.space("")
+	return def == space
+}
+
+func isDefaultDecl(attr xml.Attr) bool {
+	return attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix
+}
+
+// isForeignDefault returns true if the element relies on the default name
+// space in scope but attr changes it, which would move the element to another
+// name space.
+func (p *Printer) isForeignDefault(start *xml.StartElement, attr xml.Attr) bool {
+	return p.depth > 1 && start.Name.Space == "" && attr.Value != "" && !p.isDefault(attr.Value)
 }
 
 // EscapeString writes to p the properly escaped XML equivalent
@@ -48,24 +120,44 @@ func (p *Printer) EscapeString(s string) {
 
 // WriteStart writes the given start element.
 func (p *Printer) WriteStart(start *xml.StartElement) {
-	p.WriteByte('<')
-	if start.Name.Space != "" {
-		if prefix := p.attrPrefix[start.Name.Space]; prefix != "" {
-			p.WriteString(prefix)
-			p.WriteByte(':')
+	p.depth++
+	for _, attr := range start.Attr {
+		if attr.Name.Space == xmlnsPrefix && attr.Name.Local != "" {
+			p.decls = append(p.decls, nsDecl{attr.Name.Local, attr.Value, p.depth})
+		} else if isDefaultDecl(attr) && !p.isForeignDefault(start, attr) {
+			p.decls = append(p.decls, nsDecl{"", attr.Value, p.depth})
+		}
+	}
+	n := len(p.decls)
+	if !p.isDefault(start.Name.Space) {
+		if _, ok := p.prefix(start.Name.Space); !ok {
+			p.declare(start.Name.Space)
 		}
 	}
-	p.WriteString(start.Name.Local)
+	p.WriteByte('<')
+	p.writeName(start.Name)
+	for _, decl := range p.decls[n:] {
+		p.writeDecl(decl)
+	}
 
 	// Attributes
 	for _, attr := range start.Attr {
 		name := attr.Name
-		if name.Local == "" {
+		if name.Local == "" || isDefaultDecl(attr) && p.isForeignDefault(start, attr) {
 			continue
 		}
+		prefix := name.Space
+		if prefix != "" && prefix != xmlnsPrefix {
+			var ok bool
+			if prefix, ok = p.prefix(name.Space); !ok {
+				decl := p.declare(name.Space)
+				p.writeDecl(decl)
+				prefix = decl.prefix
+			}
+		}
 		p.WriteByte(' ')
-		if name.Space != "" {
-			p.WriteString(p.createAttrPrefix(&attr))
+		if prefix != "" {
+			p.WriteString(prefix)
 			p.WriteByte(':')
 		}
 		p.WriteString(name.Local)
@@ -79,19 +171,16 @@ func (p *Printer) WriteStart(start *xml.StartElement) {
 	}
 	if p.AutoClose {
 		p.WriteByte('/')
+		p.leave()
 	}
 	p.WriteByte('>')
 }
 
+// WriteEnd writes the end of the element with the given name.
 func (p *Printer) WriteEnd(name xml.Name) {
 	p.WriteByte('<')
 	p.WriteByte('/')
-	if name.Space != "" {
-		if prefix := p.attrPrefix[name.Space]; prefix != "" {
-			p.WriteString(prefix)
-			p.WriteByte(':')
-		}
-	}
-	p.WriteString(name.Local)
+	p.writeName(name)
 	p.WriteByte('>')
+	p.leave()
 }
-- 
2.43.0


From 4dbf85257f7632c702e024540dbfb36f222bd1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 30/52] fix: escape triangle extension attributes and keep them
 in their triangle

---
 encoder.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/encoder.go b/encoder.go
index 39c84f7..30ec8a8 100644
--- a/encoder.go
+++ b/encoder.go
@@ -485,7 +485,7 @@ func (e *Encoder) writeTriangles(x spec.Encoder, r *Object, m *Mesh) {
 		attrs[0].Value = strconv.FormatUint(uint64(t.V1), 10)
 		attrs[1].Value = strconv.FormatUint(uint64(t.V2), 10)
 		attrs[2].Value = strconv.FormatUint(uint64(t.V3), 10)
-		start.Attr = attrs[:3]
+		start.Attr = attrs[:3:3]
 		if t.PID != 0 {
 			if (t.P1 != t.P2) || (t.P1 != t.P3) {
 				attrs[3].Value = strconv.FormatUint(uint64(t.PID), 10)
@@ -496,10 +496,16 @@ func (e *Encoder) writeTriangles(x spec.Encoder, r *Object, m *Mesh) {
 			} else if (t.PID != r.PID) || (t.P1 != r.PIndex) {
 				attrs[3].Value = strconv.FormatUint(uint64(t.PID), 10)
 				attrs[4].Value = strconv.FormatUint(uint64(t.P1), 10)
-				start.Attr = attrs[:5]
+				start.Attr = attrs[:5:5]
 			}
 		}
-		t.AnyAttr.Marshal3MF(x, &start)
+		if len(t.AnyAttr) != 0 {
+			t.AnyAttr.Marshal3MF(x, &start)
+			x.SetSkipAttrEscape(false)
+			x.EncodeToken(start)
+			x.SetSkipAttrEscape(true)
+			continue
+		}
 		x.EncodeToken(start)
 	}
 	x.SetSkipAttrEscape(false)
-- 
2.43.0


From 04807fcc2fb87a7e6f0c660d212609b96f47f02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 31/52] fix: do not panic opening a broken package with a
 custom decompressor

---
 opc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opc.go b/opc.go
index c58e2b0..52588f0 100644
--- a/opc.go
+++ b/opc.go
@@ -103,7 +103,7 @@ type opcReader struct {
 
 func (o *opcReader) Open(f func(r io.Reader) io.ReadCloser) (err error) {
 	o.r, err = opc.NewReader(o.ra, o.size)
-	if f != nil {
+	if err == nil && f != nil {
 		o.r.SetDecompressor(f)
 	}
 	return
-- 
2.43.0


From 2fa5859a014a7387d66499530bacffe643e9f169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 32/52] fix: save the second radius of a beam when it is the
 default one but the first is not

---
 beamlattice/encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beamlattice/encoder.go b/beamlattice/encoder.go
index 67ebf58..e61d881 100644
--- a/beamlattice/encoder.go
+++ b/beamlattice/encoder.go
@@ -83,7 +83,7 @@ func marshalBeams(x spec.Encoder, m *BeamLattice) {
 				Value: strconv.FormatFloat(float64(b.Radius[0]), 'f', x.FloatPresicion(), 32),
 			})
 		}
-		if b.Radius[1] > 0 && b.Radius[1] != m.Radius {
+		if b.Radius[1] > 0 && b.Radius[1] != b.Radius[0] {
 			xbeam.Attr = append(xbeam.Attr, xml.Attr{
 				Name:  xml.Name{Local: attrR2},
 				Value: strconv.FormatFloat(float64(b.Radius[1]), 'f', x.FloatPresicion(), 32),
-- 
2.43.0


From 8e4e7d0a10cbfb70f6067ebdb58cc744564a37f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 33/52] fix: report the index of the segment instead of the
 polygon one

---
 slices/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slices/decoder.go b/slices/decoder.go
index 4dd286a..c1b3249 100644
--- a/slices/decoder.go
+++ b/slices/decoder.go
@@ -214,7 +214,7 @@ type polygonDecoder struct {
 func (d *polygonDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 	if name.Space == Namespace && name.Local == attrSegment {
 		child = &d.polygonSegmentDecoder
-		i = len(d.slice.Polygons)
+		i = len(d.polygonSegmentDecoder.polygon.Segments)
 	}
 	return
 }
-- 
2.43.0


From b4662889c52f9569a1064cbf11e6ae5158e68ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 34/52] fix: do not read attributes of other extensions as
 slice attributes

---
 slices/decoder.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/slices/decoder.go b/slices/decoder.go
index c1b3249..4f4e9d4 100644
--- a/slices/decoder.go
+++ b/slices/decoder.go
@@ -72,6 +72,9 @@ func (d *sliceStackDecoder) Child(name xml.Name) (i int, child spec.ElementDecod
 func (d *sliceStackDecoder) Start(attrs []spec.XMLAttr) error {
 	var errs error
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		switch a.Name.Local {
 		case attrID:
 			id, err := strconv.ParseUint(string(a.Value), 10, 32)
@@ -102,6 +105,9 @@ func (d *sliceRefDecoder) Start(attrs []spec.XMLAttr) error {
 		errs         error
 	)
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		switch a.Name.Local {
 		case attrSliceRefID:
 			val, err := strconv.ParseUint(string(a.Value), 10, 32)
@@ -148,7 +154,7 @@ func (d *sliceDecoder) Start(attrs []spec.XMLAttr) error {
 	d.polygonVerticesDecoder.slice = &d.slice
 	var errs error
 	for _, a := range attrs {
-		if a.Name.Local == attrZTop {
+		if a.Name.Space == "" && a.Name.Local == attrZTop {
 			val, err := strconv.ParseFloat(string(a.Value), 32)
 			if err != nil {
 				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
@@ -190,6 +196,9 @@ func (d *polygonVertexDecoder) Start(attrs []spec.XMLAttr) error {
 		errs error
 	)
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		val, err := strconv.ParseFloat(string(a.Value), 32)
 		if err != nil {
 			errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
@@ -225,7 +234,7 @@ func (d *polygonDecoder) Start(attrs []spec.XMLAttr) error {
 	d.slice.Polygons = append(d.slice.Polygons, Polygon{})
 	d.polygonSegmentDecoder.polygon = &d.slice.Polygons[polygonIndex]
 	for _, a := range attrs {
-		if a.Name.Local == attrStartV {
+		if a.Name.Space == "" && a.Name.Local == attrStartV {
 			val, err := strconv.ParseUint(string(a.Value), 10, 32)
 			if err != nil {
 				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
@@ -249,6 +258,9 @@ func (d *polygonSegmentDecoder) Start(attrs []spec.XMLAttr) error {
 		errs         error
 	)
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		var required bool
 		val, err := strconv.ParseUint(string(a.Value), 10, 32)
 		switch a.Name.Local {
-- 
2.43.0


From 1181ce79755cf2c326063d5e189e338a172c9fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 35/52] fix: report the enumeration attributes with an unknown
 value

---
 beamlattice/decoder.go |  4 ++++
 materials/decoder.go   | 29 ++++++++++++++++++++++++-----
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/beamlattice/decoder.go b/beamlattice/decoder.go
index ede9196..1cb4ac4 100644
--- a/beamlattice/decoder.go
+++ b/beamlattice/decoder.go
@@ -156,12 +156,16 @@ func (d *beamDecoder) Start(attrs []spec.XMLAttr) error {
 			beam.CapMode[0], ok = newCapMode(string(a.Value))
 			if ok {
 				hasCap1 = true
+			} else {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
 			}
 		case attrCap2:
 			var ok bool
 			beam.CapMode[1], ok = newCapMode(string(a.Value))
 			if ok {
 				hasCap2 = true
+			} else {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
 			}
 		}
 	}
diff --git a/materials/decoder.go b/materials/decoder.go
index b038fb9..a7e40b3 100644
--- a/materials/decoder.go
+++ b/materials/decoder.go
@@ -187,13 +187,29 @@ func (d *texture2DDecoder) Start(attrs []spec.XMLAttr) error {
 		case attrPath:
 			d.resource.Path = string(a.Value)
 		case attrContentType:
-			d.resource.ContentType, _ = newTexture2DType(string(a.Value))
+			var ok bool
+			d.resource.ContentType, ok = newTexture2DType(string(a.Value))
+			if !ok {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
+			}
 		case attrTileStyleU:
-			d.resource.TileStyleU, _ = newTileStyle(string(a.Value))
+			var ok bool
+			d.resource.TileStyleU, ok = newTileStyle(string(a.Value))
+			if !ok {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
+			}
 		case attrTileStyleV:
-			d.resource.TileStyleV, _ = newTileStyle(string(a.Value))
+			var ok bool
+			d.resource.TileStyleV, ok = newTileStyle(string(a.Value))
+			if !ok {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
+			}
 		case attrFilter:
-			d.resource.Filter, _ = newTextureFilter(string(a.Value))
+			var ok bool
+			d.resource.Filter, ok = newTextureFilter(string(a.Value))
+			if !ok {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
+			}
 		}
 	}
 	return errs
@@ -309,7 +325,10 @@ func (d *multiPropertiesDecoder) Start(attrs []spec.XMLAttr) error {
 			d.resource.ID = uint32(id)
 		case attrBlendMethods:
 			for _, f := range strings.Fields(string(a.Value)) {
-				val, _ := newBlendMethod(f)
+				val, ok := newBlendMethod(f)
+				if !ok {
+					errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
+				}
 				d.resource.BlendMethods = append(d.resource.BlendMethods, val)
 			}
 		case attrPIDs:
-- 
2.43.0


From 8cf8f10df7406a4b1980e9e2bb66bc8fc74ab467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 36/52] fix: keep the whole text of a metadata element
 interrupted by a processing instruction

---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 8ed3b44..24aa32f 100644
--- a/decoder.go
+++ b/decoder.go
@@ -198,7 +198,7 @@ func (d *metadataDecoder) Start(attrs []spec.XMLAttr) error {
 }
 
 func (d *metadataDecoder) CharData(txt []byte) {
-	d.metadata.Value = string(txt)
+	d.metadata.Value += string(txt)
 }
 
 func (d *metadataDecoder) End() {
-- 
2.43.0


From 4e3c99f450ff12939fadc5cf2469f98e531587de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 37/52] fix: import STL files of less than 300 bytes and stop
 on read errors

Small files were rejected and a reader failing before that size made the
decoder loop forever.
---
 importer/stl/decoder.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/importer/stl/decoder.go b/importer/stl/decoder.go
index 82fd9b1..ded0117 100644
--- a/importer/stl/decoder.go
+++ b/importer/stl/decoder.go
@@ -15,7 +15,7 @@ import (
 
 var checkEveryFaces = 1000
 
-const sizeOfHeader = 300 // minimum size of a closed mesh in binary is 384 bytes, corresponding to a triangle.
+const sizeOfHeader = 300 // number of bytes inspected to tell ascii files from binary ones, smaller files are inspected whole.
 
 // Decoder can decode a stl.
 // It supports automatic detection of binary or ascii stl encoding.
@@ -59,17 +59,11 @@ func (d *Decoder) DecodeContext(ctx context.Context, m *go3mf.Model) error {
 }
 
 func (d *Decoder) isASCII(r *bufio.Reader) (bool, error) {
-	var header string
-	for {
-		buff, err := r.Peek(sizeOfHeader)
-		if err == io.EOF {
-			return false, err
-		}
-		if len(buff) >= sizeOfHeader {
-			header = strings.ToLower(string(buff))
-			break
-		}
+	buff, err := r.Peek(sizeOfHeader)
+	if err != nil && (err != io.EOF || len(buff) == 0) {
+		return false, err
 	}
+	header := strings.ToLower(string(buff))
 	return strings.HasPrefix(header, "solid") && isASCII(header), nil
 }
 
-- 
2.43.0


From 2ff83fb648dfdc05f99412b5ed5c5f703cbd884c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 38/52] fix: bound the memory reserved for a binary STL and
 stop when its context is done

---
 importer/stl/binary.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/importer/stl/binary.go b/importer/stl/binary.go
index dce85a7..ef26f09 100644
--- a/importer/stl/binary.go
+++ b/importer/stl/binary.go
@@ -22,6 +22,8 @@ type binaryFace struct {
 	_        uint16
 }
 
+const maxPreallocFaces = 1000
+
 // binaryDecoder can create a Mesh from a Read stream that is feeded with a binary STL.
 type binaryDecoder struct {
 	r io.Reader
@@ -35,27 +37,34 @@ func (d *binaryDecoder) decode(ctx context.Context, m *go3mf.Mesh) error {
 	if err != nil {
 		return err
 	}
-	mb.Mesh.Triangles.Triangle = make([]go3mf.Triangle, 0, header.FaceCount)
+	// The face count is not to be trusted.
+	capacity := header.FaceCount
+	if capacity > maxPreallocFaces {
+		capacity = maxPreallocFaces
+	}
+	mb.Mesh.Triangles.Triangle = make([]go3mf.Triangle, 0, capacity)
 	nextFaceCheck := checkEveryFaces
 	var facet binaryFace
-	for nFace := 0; nFace < int(header.FaceCount); nFace++ {
+	for nFace := uint32(0); nFace < header.FaceCount; nFace++ {
 		err = binary.Read(d.r, binary.LittleEndian, &facet)
 		if err != nil {
-			break
+			if err == io.EOF {
+				err = io.ErrUnexpectedEOF
+			}
+			return err
 		}
 		d.decodeFace(&facet, mb)
 		if len(m.Triangles.Triangle) > nextFaceCheck {
 			select {
 			case <-ctx.Done():
-				err = ctx.Err()
-				break
+				return ctx.Err()
 			default: // Default is must to avoid blocking
 			}
 			nextFaceCheck += checkEveryFaces
 		}
 	}
 
-	return err
+	return nil
 }
 
 func (d *binaryDecoder) decodeFace(facet *binaryFace, mb *go3mf.MeshBuilder) {
-- 
2.43.0


From 2e84ba5aedccee87d46c5b4f056df27754713c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 39/52] fix: report malformed and truncated ASCII STL files

Coordinates that are not numbers were read as zero and facets without three
vertices were dropped or mixed with the next ones.
---
 importer/stl/ascii.go | 57 +++++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/importer/stl/ascii.go b/importer/stl/ascii.go
index d73e4c0..7901f43 100644
--- a/importer/stl/ascii.go
+++ b/importer/stl/ascii.go
@@ -6,6 +6,7 @@ package stl
 import (
 	"bufio"
 	"context"
+	"errors"
 	"io"
 	"strconv"
 	"strings"
@@ -13,46 +14,72 @@ import (
 	"github.com/hpinc/go3mf"
 )
 
+var errFacet = errors.New("stl: a facet must have three vertices of three coordinates")
+
 // asciiDecoder can create a Model from a Read stream that is feeded with a ASCII STL.
 type asciiDecoder struct {
 	r     io.Reader
 	units float32
 }
 
-func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) (err error) {
+func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) error {
 	mb := go3mf.NewMeshBuilder(m)
 	position := 0
 	nextFaceCheck := checkEveryFaces
-	var nodes [3]uint32
+	var (
+		nodes [3]uint32
+		open  bool // inside a solid
+	)
 	scanner := bufio.NewScanner(d.r)
 	for scanner.Scan() {
 		line := scanner.Text()
 		fields := strings.Fields(line)
-		if len(fields) == 4 && fields[0] == "vertex" {
-			var f [3]float64
-			f[0], _ = strconv.ParseFloat(fields[1], 32)
-			f[1], _ = strconv.ParseFloat(fields[2], 32)
-			f[2], _ = strconv.ParseFloat(fields[3], 32)
-			nodes[position] = mb.AddVertex(go3mf.Point3D{float32(f[0]), float32(f[1]), float32(f[2])})
+		if len(fields) == 0 {
+			continue
+		}
+		switch strings.ToLower(fields[0]) {
+		case "solid":
+			open = true
+		case "endsolid":
+			open = false
+		case "endloop":
+			if position != 3 {
+				return errFacet
+			}
+			position = 0
+		case "vertex":
+			if len(fields) != 4 || position == 3 {
+				return errFacet
+			}
+			var p go3mf.Point3D
+			for i, field := range fields[1:] {
+				f, err := strconv.ParseFloat(field, 32)
+				if err != nil {
+					return err
+				}
+				p[i] = float32(f)
+			}
+			nodes[position] = mb.AddVertex(p)
 			position++
 
 			if position == 3 {
-				position = 0
 				m.Triangles.Triangle = append(m.Triangles.Triangle, go3mf.Triangle{V1: nodes[0], V2: nodes[1], V3: nodes[2]})
 				if len(m.Triangles.Triangle) > nextFaceCheck {
 					select {
 					case <-ctx.Done():
-						err = ctx.Err()
-						break
+						return ctx.Err()
 					default: // Default is must to avoid blocking
 					}
 					nextFaceCheck += checkEveryFaces
 				}
 			}
 		}
-		if err != nil {
-			return err
-		}
 	}
-	return scanner.Err()
+	if err := scanner.Err(); err != nil {
+		return err
+	}
+	if open || position != 0 {
+		return io.ErrUnexpectedEOF
+	}
+	return nil
 }
-- 
2.43.0


From 0726332238246fa63cbce27734725fbf87e19372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 40/52] fix: report the errors of extensions that fail to
 encode themselves

---
 encoder.go | 126 ++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 92 insertions(+), 34 deletions(-)

diff --git a/encoder.go b/encoder.go
index 30ec8a8..d2d51e0 100644
--- a/encoder.go
+++ b/encoder.go
@@ -243,12 +243,15 @@ func (e *Encoder) modelToken(x spec.Encoder, m *Model, isRoot bool) (xml.StartEl
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: attrReqExt}, Value: strings.Join(exts, " ")})
 	}
 	tm := xml.StartElement{Name: xml.Name{Local: attrModel}, Attr: attrs}
-	m.AnyAttr.Marshal3MF(x, &tm)
-	return tm, nil
+	err := m.AnyAttr.Marshal3MF(x, &tm)
+	return tm, err
 }
 
 func (e *Encoder) writeChildModel(x spec.Encoder, m *Model, child *ChildModel) error {
-	tm, _ := e.modelToken(x, m, false) // error already checked before
+	tm, err := e.modelToken(x, m, false)
+	if err != nil {
+		return err
+	}
 	x.EncodeToken(tm)
 
 	if err := e.writeResources(x, &child.Resources); err != nil {
@@ -258,7 +261,9 @@ func (e *Encoder) writeChildModel(x spec.Encoder, m *Model, child *ChildModel) e
 	xb := xml.StartElement{Name: xml.Name{Local: attrBuild}}
 	x.EncodeToken(xb)
 	x.EncodeToken(xb.End())
-	child.Any.Marshal3MF(x, &tm)
+	if err := child.Any.Marshal3MF(x, &tm); err != nil {
+		return err
+	}
 	x.EncodeToken(tm.End())
 	return x.Flush()
 }
@@ -274,23 +279,32 @@ func (e *Encoder) writeModel(x spec.Encoder, m *Model) error {
 	if err := e.writeResources(x, &m.Resources); err != nil {
 		return err
 	}
-	e.writeBuild(x, m)
-	m.Any.Marshal3MF(x, &tm)
+	if err := e.writeBuild(x, m); err != nil {
+		return err
+	}
+	if err := m.Any.Marshal3MF(x, &tm); err != nil {
+		return err
+	}
 	x.EncodeToken(tm.End())
 	return x.Flush()
 }
 
-func (e *Encoder) writeMetadataGroup(x spec.Encoder, m MetadataGroup) {
+func (e *Encoder) writeMetadataGroup(x spec.Encoder, m MetadataGroup) error {
 	xm := xml.StartElement{Name: xml.Name{Local: attrMetadataGroup}}
-	m.AnyAttr.Marshal3MF(x, &xm)
+	if err := m.AnyAttr.Marshal3MF(x, &xm); err != nil {
+		return err
+	}
 	x.EncodeToken(xm)
 	e.writeMetadata(x, m.Metadata)
 	x.EncodeToken(xm.End())
+	return nil
 }
 
-func (e *Encoder) writeBuild(x spec.Encoder, m *Model) {
+func (e *Encoder) writeBuild(x spec.Encoder, m *Model) error {
 	xb := xml.StartElement{Name: xml.Name{Local: attrBuild}}
-	m.Build.AnyAttr.Marshal3MF(x, &xb)
+	if err := m.Build.AnyAttr.Marshal3MF(x, &xb); err != nil {
+		return err
+	}
 	x.EncodeToken(xb)
 	x.SetAutoClose(true)
 	for _, item := range m.Build.Items {
@@ -307,11 +321,15 @@ func (e *Encoder) writeBuild(x spec.Encoder, m *Model) {
 				Name: xml.Name{Local: attrPartNumber}, Value: item.PartNumber,
 			})
 		}
-		item.AnyAttr.Marshal3MF(x, &xi)
+		if err := item.AnyAttr.Marshal3MF(x, &xi); err != nil {
+			return err
+		}
 		if len(item.Metadata.Metadata) != 0 {
 			x.SetAutoClose(false)
 			x.EncodeToken(xi)
-			e.writeMetadataGroup(x, item.Metadata)
+			if err := e.writeMetadataGroup(x, item.Metadata); err != nil {
+				return err
+			}
 			x.EncodeToken(xi.End())
 			x.SetAutoClose(true)
 		} else {
@@ -320,11 +338,14 @@ func (e *Encoder) writeBuild(x spec.Encoder, m *Model) {
 	}
 	x.SetAutoClose(false)
 	x.EncodeToken(xb.End())
+	return nil
 }
 
 func (e *Encoder) writeResources(x spec.Encoder, rs *Resources) error {
 	xt := xml.StartElement{Name: xml.Name{Local: attrResources}}
-	rs.AnyAttr.Marshal3MF(x, &xt)
+	if err := rs.AnyAttr.Marshal3MF(x, &xt); err != nil {
+		return err
+	}
 	x.EncodeToken(xt)
 	for _, r := range rs.Assets {
 		if r, ok := r.(spec.Marshaler); ok {
@@ -338,7 +359,9 @@ func (e *Encoder) writeResources(x spec.Encoder, rs *Resources) error {
 	}
 
 	for _, o := range rs.Objects {
-		e.writeObject(x, o)
+		if err := e.writeObject(x, o); err != nil {
+			return err
+		}
 		if err := x.Flush(); err != nil {
 			return err
 		}
@@ -372,7 +395,7 @@ func (e *Encoder) writeMetadata(x spec.Encoder, metadata []Metadata) {
 	}
 }
 
-func (e *Encoder) writeObject(x spec.Encoder, r *Object) {
+func (e *Encoder) writeObject(x spec.Encoder, r *Object) error {
 	xo := xml.StartElement{Name: xml.Name{Local: attrObject}, Attr: []xml.Attr{
 		{Name: xml.Name{Local: attrID}, Value: strconv.FormatUint(uint64(r.ID), 10)},
 	}}
@@ -401,24 +424,35 @@ func (e *Encoder) writeObject(x spec.Encoder, r *Object) {
 			})
 		}
 	}
-	r.AnyAttr.Marshal3MF(x, &xo)
+	if err := r.AnyAttr.Marshal3MF(x, &xo); err != nil {
+		return err
+	}
 	x.EncodeToken(xo)
 
 	if len(r.Metadata.Metadata) != 0 {
-		e.writeMetadataGroup(x, r.Metadata)
+		if err := e.writeMetadataGroup(x, r.Metadata); err != nil {
+			return err
+		}
 	}
 
 	if r.Mesh != nil {
-		e.writeMesh(x, r, r.Mesh)
+		if err := e.writeMesh(x, r, r.Mesh); err != nil {
+			return err
+		}
 	} else if r.Components != nil {
-		e.writeComponents(x, r.Components)
+		if err := e.writeComponents(x, r.Components); err != nil {
+			return err
+		}
 	}
 	x.EncodeToken(xo.End())
+	return nil
 }
 
-func (e *Encoder) writeComponents(x spec.Encoder, comps *Components) {
+func (e *Encoder) writeComponents(x spec.Encoder, comps *Components) error {
 	xcs := xml.StartElement{Name: xml.Name{Local: attrComponents}}
-	comps.AnyAttr.Marshal3MF(x, &xcs)
+	if err := comps.AnyAttr.Marshal3MF(x, &xcs); err != nil {
+		return err
+	}
 	x.EncodeToken(xcs)
 	x.SetAutoClose(true)
 	for _, c := range comps.Component {
@@ -430,16 +464,21 @@ func (e *Encoder) writeComponents(x spec.Encoder, comps *Components) {
 		if c.HasTransform() {
 			xt.Attr = append(xt.Attr, xml.Attr{Name: xml.Name{Local: attrTransform}, Value: c.Transform.String()})
 		}
-		c.AnyAttr.Marshal3MF(x, &xt)
+		if err := c.AnyAttr.Marshal3MF(x, &xt); err != nil {
+			return err
+		}
 		x.EncodeToken(xt)
 	}
 	x.SetAutoClose(false)
 	x.EncodeToken(xcs.End())
+	return nil
 }
 
-func (e *Encoder) writeVertices(x spec.Encoder, m *Mesh) {
+func (e *Encoder) writeVertices(x spec.Encoder, m *Mesh) error {
 	xvs := xml.StartElement{Name: xml.Name{Local: attrVertices}}
-	m.Vertices.AnyAttr.Marshal3MF(x, &xvs)
+	if err := m.Vertices.AnyAttr.Marshal3MF(x, &xvs); err != nil {
+		return err
+	}
 	x.EncodeToken(xvs)
 	prec := x.FloatPresicion()
 	start := xml.StartElement{
@@ -461,11 +500,14 @@ func (e *Encoder) writeVertices(x spec.Encoder, m *Mesh) {
 	x.SetSkipAttrEscape(false)
 	x.SetAutoClose(false)
 	x.EncodeToken(xvs.End())
+	return nil
 }
 
-func (e *Encoder) writeTriangles(x spec.Encoder, r *Object, m *Mesh) {
+func (e *Encoder) writeTriangles(x spec.Encoder, r *Object, m *Mesh) error {
 	xvt := xml.StartElement{Name: xml.Name{Local: attrTriangles}}
-	m.Triangles.AnyAttr.Marshal3MF(x, &xvt)
+	if err := m.Triangles.AnyAttr.Marshal3MF(x, &xvt); err != nil {
+		return err
+	}
 	x.EncodeToken(xvt)
 	start := xml.StartElement{
 		Name: xml.Name{Local: attrTriangle},
@@ -500,7 +542,9 @@ func (e *Encoder) writeTriangles(x spec.Encoder, r *Object, m *Mesh) {
 			}
 		}
 		if len(t.AnyAttr) != 0 {
-			t.AnyAttr.Marshal3MF(x, &start)
+			if err := t.AnyAttr.Marshal3MF(x, &start); err != nil {
+				return err
+			}
 			x.SetSkipAttrEscape(false)
 			x.EncodeToken(start)
 			x.SetSkipAttrEscape(true)
@@ -511,25 +555,37 @@ func (e *Encoder) writeTriangles(x spec.Encoder, r *Object, m *Mesh) {
 	x.SetSkipAttrEscape(false)
 	x.SetAutoClose(false)
 	x.EncodeToken(xvt.End())
+	return nil
 }
 
-func (e *Encoder) writeMesh(x spec.Encoder, r *Object, m *Mesh) {
+func (e *Encoder) writeMesh(x spec.Encoder, r *Object, m *Mesh) error {
 	xm := xml.StartElement{Name: xml.Name{Local: attrMesh}}
-	m.AnyAttr.Marshal3MF(x, &xm)
+	if err := m.AnyAttr.Marshal3MF(x, &xm); err != nil {
+		return err
+	}
 	x.EncodeToken(xm)
 
-	e.writeVertices(x, m)
-	e.writeTriangles(x, r, m)
+	if err := e.writeVertices(x, m); err != nil {
+		return err
+	}
+	if err := e.writeTriangles(x, r, m); err != nil {
+		return err
+	}
 
-	m.Any.Marshal3MF(x, &xm)
+	if err := m.Any.Marshal3MF(x, &xm); err != nil {
+		return err
+	}
 	x.EncodeToken(xm.End())
+	return nil
 }
 
 func (r *BaseMaterials) Marshal3MF(x spec.Encoder, _ *xml.StartElement) error {
 	xt := xml.StartElement{Name: xml.Name{Local: attrBaseMaterials}, Attr: []xml.Attr{
 		{Name: xml.Name{Local: attrID}, Value: strconv.FormatUint(uint64(r.ID), 10)},
 	}}
-	r.AnyAttr.Marshal3MF(x, &xt)
+	if err := r.AnyAttr.Marshal3MF(x, &xt); err != nil {
+		return err
+	}
 	x.EncodeToken(xt)
 	x.SetAutoClose(true)
 	for _, ma := range r.Materials {
@@ -540,7 +596,9 @@ func (r *BaseMaterials) Marshal3MF(x spec.Encoder, _ *xml.StartElement) error {
 				{Name: xml.Name{Local: attrDisplayColor}, Value: spec.FormatRGBA(ma.Color)},
 			},
 		}
-		ma.AnyAttr.Marshal3MF(x, &start)
+		if err := ma.AnyAttr.Marshal3MF(x, &start); err != nil {
+			return err
+		}
 		x.EncodeToken(start)
 	}
 	x.SetAutoClose(false)
-- 
2.43.0


From 130fef620550ca84e75d34b343c84fcc324996b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 41/52] fix: encode metadata groups that only have extension
 attributes

---
 encoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index d2d51e0..ace3eba 100644
--- a/encoder.go
+++ b/encoder.go
@@ -324,7 +324,7 @@ func (e *Encoder) writeBuild(x spec.Encoder, m *Model) error {
 		if err := item.AnyAttr.Marshal3MF(x, &xi); err != nil {
 			return err
 		}
-		if len(item.Metadata.Metadata) != 0 {
+		if len(item.Metadata.Metadata) != 0 || len(item.Metadata.AnyAttr) != 0 {
 			x.SetAutoClose(false)
 			x.EncodeToken(xi)
 			if err := e.writeMetadataGroup(x, item.Metadata); err != nil {
@@ -429,7 +429,7 @@ func (e *Encoder) writeObject(x spec.Encoder, r *Object) error {
 	}
 	x.EncodeToken(xo)
 
-	if len(r.Metadata.Metadata) != 0 {
+	if len(r.Metadata.Metadata) != 0 || len(r.Metadata.AnyAttr) != 0 {
 		if err := e.writeMetadataGroup(x, r.Metadata); err != nil {
 			return err
 		}
-- 
2.43.0


From f1fe30444fb3e76e6d69f0031469b462cf902455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 42/52] fix: keep the text of unknown elements when decoding

---
 read.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/read.go b/read.go
index b733c9f..2eab326 100644
--- a/read.go
+++ b/read.go
@@ -138,12 +138,15 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 		}
 	}
 	x.OnChar = func(tp xml.CharData) {
-		if currentDecoder, ok := currentDecoder.(spec.CharDataElementDecoder); ok {
+		if charDecoder, ok := currentDecoder.(spec.CharDataElementDecoder); ok {
 			if depth == 0 {
-				currentDecoder.CharData(tp)
+				charDecoder.CharData(tp)
 			}
 		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
-			appendDecoder.AppendToken(tp.Copy())
+			// Indentation is not preserved.
+			if len(bytes.Trim(tp, " \t\r\n")) != 0 {
+				appendDecoder.AppendToken(tp.Copy())
+			}
 		}
 	}
 	var i int
-- 
2.43.0


From 8b0432f9a0e2a87b30713454fca603dc297e549d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 43/52] fix: report infinities, NaN and Go literals as
 malformed numbers

---
 beamlattice/decoder.go |  8 ++++----
 decoder.go             |  2 +-
 materials/decoder.go   |  4 ++--
 slices/decoder.go      |  6 +++---
 spec/utils.go          | 15 ++++++++++++++-
 5 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/beamlattice/decoder.go b/beamlattice/decoder.go
index 1cb4ac4..243b6fb 100644
--- a/beamlattice/decoder.go
+++ b/beamlattice/decoder.go
@@ -39,13 +39,13 @@ func (d *beamLatticeDecoder) Start(attrs []spec.XMLAttr) error {
 		}
 		switch a.Name.Local {
 		case attrRadius:
-			val, err := strconv.ParseFloat(string(a.Value), 32)
+			val, err := spec.ParseFloat(string(a.Value))
 			if err != nil {
 				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
 			}
 			d.beamLattice.Radius = float32(val)
 		case attrMinLength, attrPrecision: // lib3mf legacy
-			val, err := strconv.ParseFloat(string(a.Value), 32)
+			val, err := spec.ParseFloat(string(a.Value))
 			if err != nil {
 				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
 			}
@@ -140,13 +140,13 @@ func (d *beamDecoder) Start(attrs []spec.XMLAttr) error {
 			}
 			beam.Indices[1] = uint32(val)
 		case attrR1:
-			val, err := strconv.ParseFloat(string(a.Value), 32)
+			val, err := spec.ParseFloat(string(a.Value))
 			if err != nil {
 				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
 			}
 			beam.Radius[0] = float32(val)
 		case attrR2:
-			val, err := strconv.ParseFloat(string(a.Value), 32)
+			val, err := spec.ParseFloat(string(a.Value))
 			if err != nil {
 				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
 			}
diff --git a/decoder.go b/decoder.go
index 24aa32f..f2025ec 100644
--- a/decoder.go
+++ b/decoder.go
@@ -498,7 +498,7 @@ func (d *vertexDecoder) Start(attrs []spec.XMLAttr) error {
 		if a.Name.Space != "" {
 			continue
 		}
-		val, err := strconv.ParseFloat(*(*string)(unsafe.Pointer(&a.Value)), 32)
+		val, err := spec.ParseFloat(*(*string)(unsafe.Pointer(&a.Value)))
 		if err != nil {
 			errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
 		}
diff --git a/materials/decoder.go b/materials/decoder.go
index a7e40b3..3f189ae 100644
--- a/materials/decoder.go
+++ b/materials/decoder.go
@@ -104,7 +104,7 @@ func (d *tex2DCoordDecoder) Start(attrs []spec.XMLAttr) error {
 		if a.Name.Space != "" {
 			continue
 		}
-		val, err := strconv.ParseFloat(string(a.Value), 32)
+		val, err := spec.ParseFloat(string(a.Value))
 		if err != nil {
 			errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
 		}
@@ -279,7 +279,7 @@ func (d *compositeDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		if a.Name.Space == "" && a.Name.Local == attrValues {
 			for _, f := range strings.Fields(string(a.Value)) {
-				val, err := strconv.ParseFloat(f, 32)
+				val, err := spec.ParseFloat(f)
 				if err != nil {
 					errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
 				}
diff --git a/slices/decoder.go b/slices/decoder.go
index 4f4e9d4..f205359 100644
--- a/slices/decoder.go
+++ b/slices/decoder.go
@@ -83,7 +83,7 @@ func (d *sliceStackDecoder) Start(attrs []spec.XMLAttr) error {
 			}
 			d.resource.ID = uint32(id)
 		case attrZBottom:
-			val, err := strconv.ParseFloat(string(a.Value), 32)
+			val, err := spec.ParseFloat(string(a.Value))
 			if err != nil {
 				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
 			}
@@ -155,7 +155,7 @@ func (d *sliceDecoder) Start(attrs []spec.XMLAttr) error {
 	var errs error
 	for _, a := range attrs {
 		if a.Name.Space == "" && a.Name.Local == attrZTop {
-			val, err := strconv.ParseFloat(string(a.Value), 32)
+			val, err := spec.ParseFloat(string(a.Value))
 			if err != nil {
 				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
 			}
@@ -199,7 +199,7 @@ func (d *polygonVertexDecoder) Start(attrs []spec.XMLAttr) error {
 		if a.Name.Space != "" {
 			continue
 		}
-		val, err := strconv.ParseFloat(string(a.Value), 32)
+		val, err := spec.ParseFloat(string(a.Value))
 		if err != nil {
 			errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
 		}
diff --git a/spec/utils.go b/spec/utils.go
index 8afbb24..57895eb 100644
--- a/spec/utils.go
+++ b/spec/utils.go
@@ -57,6 +57,19 @@ func FormatRGBA(c color.RGBA) string {
 	return fmt.Sprintf("#%02x%02x%02x%02x", c.R, c.G, c.B, c.A)
 }
 
+// ParseFloat parses s as a 32 bits number. Unlike strconv.ParseFloat, it accepts
+// nothing but decimal numbers: no infinities, NaN, hexadecimals nor underscores.
+func ParseFloat(s string) (float64, error) {
+	for i := 0; i < len(s); i++ {
+		switch c := s[i]; {
+		case c >= '0' && c <= '9', c == '.', c == '-', c == '+', c == 'e', c == 'E':
+		default:
+			return 0, strconv.ErrSyntax
+		}
+	}
+	return strconv.ParseFloat(s, 32)
+}
+
 // ParseMatrix parses s as a Matrix.
 func ParseMatrix(s string) ([16]float32, bool) {
 	values := strings.Fields(s)
@@ -65,7 +78,7 @@ func ParseMatrix(s string) ([16]float32, bool) {
 	}
 	var t [12]float32
 	for i := 0; i < 12; i++ {
-		val, err := strconv.ParseFloat(values[i], 32)
+		val, err := ParseFloat(values[i])
 		if err != nil {
 			return [16]float32{}, false
 		}
-- 
2.43.0


From 9df1722c00d27054296f423abccd4a2040ef323d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 44/52] fix: keep extension attributes, elements and decimal
 numbers without changing the spec package

---
 beamlattice/decoder.go    |  9 ++++----
 decoder.go                | 45 ++++++++++++++++++++++++---------------
 encoder.go                | 16 +++++++++++---
 internal/number/number.go | 40 ++++++++++++++++++++++++++++++++++
 materials/decoder.go      |  5 +++--
 slices/decoder.go         |  7 +++---
 spec/spec.go              |  6 ++----
 spec/utils.go             | 15 +------------
 8 files changed, 96 insertions(+), 47 deletions(-)
 create mode 100644 internal/number/number.go

diff --git a/beamlattice/decoder.go b/beamlattice/decoder.go
index 243b6fb..6106992 100644
--- a/beamlattice/decoder.go
+++ b/beamlattice/decoder.go
@@ -8,6 +8,7 @@ import (
 	"strconv"
 
 	specerr "github.com/hpinc/go3mf/errors"
+	"github.com/hpinc/go3mf/internal/number"
 	"github.com/hpinc/go3mf/spec"
 )
 
@@ -39,13 +40,13 @@ func (d *beamLatticeDecoder) Start(attrs []spec.XMLAttr) error {
 		}
 		switch a.Name.Local {
 		case attrRadius:
-			val, err := spec.ParseFloat(string(a.Value))
+			val, err := number.ParseFloat(string(a.Value))
 			if err != nil {
 				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
 			}
 			d.beamLattice.Radius = float32(val)
 		case attrMinLength, attrPrecision: // lib3mf legacy
-			val, err := spec.ParseFloat(string(a.Value))
+			val, err := number.ParseFloat(string(a.Value))
 			if err != nil {
 				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
 			}
@@ -140,13 +141,13 @@ func (d *beamDecoder) Start(attrs []spec.XMLAttr) error {
 			}
 			beam.Indices[1] = uint32(val)
 		case attrR1:
-			val, err := spec.ParseFloat(string(a.Value))
+			val, err := number.ParseFloat(string(a.Value))
 			if err != nil {
 				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
 			}
 			beam.Radius[0] = float32(val)
 		case attrR2:
-			val, err := spec.ParseFloat(string(a.Value))
+			val, err := number.ParseFloat(string(a.Value))
 			if err != nil {
 				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
 			}
diff --git a/decoder.go b/decoder.go
index f2025ec..761df74 100644
--- a/decoder.go
+++ b/decoder.go
@@ -11,6 +11,7 @@ import (
 	"unsafe"
 
 	specerr "github.com/hpinc/go3mf/errors"
+	"github.com/hpinc/go3mf/internal/number"
 	"github.com/hpinc/go3mf/spec"
 )
 
@@ -120,7 +121,7 @@ func (d *modelDecoder) noCoreAttribute(a spec.XMLAttr) (err error) {
 	default:
 		var attr spec.AttrGroup
 		if attr = d.model.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrModel})
+			attr = newAttrGroup(a.Name.Space, attrModel)
 			d.model.AnyAttr = append(d.model.AnyAttr, attr)
 		}
 		err = specerr.Append(err, attr.Unmarshal3MFAttr(a))
@@ -147,7 +148,7 @@ func (d *metadataGroupDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.metadatas.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrMetadataGroup})
+			attr = newAttrGroup(a.Name.Space, attrMetadataGroup)
 			d.metadatas.AnyAttr = append(d.metadatas.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -224,7 +225,7 @@ func (d *buildDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.build.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrBuild})
+			attr = newAttrGroup(a.Name.Space, attrBuild)
 			d.build.AnyAttr = append(d.build.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -259,7 +260,7 @@ func (d *buildItemDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = d.item.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrItem})
+				attr = newAttrGroup(a.Name.Space, attrItem)
 				d.item.AnyAttr = append(d.item.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -280,7 +281,7 @@ func (d *buildItemDecoder) parseCoreAttr(a spec.XMLAttr) (errs error) {
 		d.item.PartNumber = string(a.Value)
 	case attrTransform:
 		var ok bool
-		d.item.Transform, ok = spec.ParseMatrix(string(a.Value))
+		d.item.Transform, ok = number.ParseMatrix(string(a.Value))
 		if !ok {
 			errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
 		}
@@ -299,7 +300,7 @@ func (d *resourceDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.resources.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrResources})
+			attr = newAttrGroup(a.Name.Space, attrResources)
 			d.resources.AnyAttr = append(d.resources.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -369,7 +370,7 @@ func (d *baseMaterialsDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = d.resource.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrBaseMaterials})
+				attr = newAttrGroup(a.Name.Space, attrBaseMaterials)
 				d.resource.AnyAttr = append(d.resource.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -403,7 +404,7 @@ func (d *baseMaterialDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = base.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrBase})
+				attr = newAttrGroup(a.Name.Space, attrBase)
 				base.AnyAttr = append(base.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -424,7 +425,7 @@ func (d *meshDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.resource.Mesh.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrMesh})
+			attr = newAttrGroup(a.Name.Space, attrMesh)
 			d.resource.Mesh.AnyAttr = append(d.resource.Mesh.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -468,7 +469,7 @@ func (d *verticesDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.mesh.Vertices.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrVertices})
+			attr = newAttrGroup(a.Name.Space, attrVertices)
 			d.mesh.Vertices.AnyAttr = append(d.mesh.Vertices.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -498,7 +499,7 @@ func (d *vertexDecoder) Start(attrs []spec.XMLAttr) error {
 		if a.Name.Space != "" {
 			continue
 		}
-		val, err := spec.ParseFloat(*(*string)(unsafe.Pointer(&a.Value)))
+		val, err := number.ParseFloat(*(*string)(unsafe.Pointer(&a.Value)))
 		if err != nil {
 			errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
 		}
@@ -533,7 +534,7 @@ func (d *trianglesDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.resource.Mesh.Triangles.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrTriangles})
+			attr = newAttrGroup(a.Name.Space, attrTriangles)
 			d.resource.Mesh.Triangles.AnyAttr = append(d.resource.Mesh.Triangles.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -597,7 +598,7 @@ func (d *triangleDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = t.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrTriangle})
+				attr = newAttrGroup(a.Name.Space, attrTriangle)
 				t.AnyAttr = append(t.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -640,7 +641,7 @@ func (d *objectDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = d.resource.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrObject})
+				attr = newAttrGroup(a.Name.Space, attrObject)
 				d.resource.AnyAttr = append(d.resource.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -715,7 +716,7 @@ func (d *componentsDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = components.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrComponents})
+			attr = newAttrGroup(a.Name.Space, attrComponents)
 			components.AnyAttr = append(components.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -752,7 +753,7 @@ func (d *componentDecoder) Start(attrs []spec.XMLAttr) error {
 				component.ObjectID = uint32(val)
 			} else if a.Name.Local == attrTransform {
 				var ok bool
-				component.Transform, ok = spec.ParseMatrix(string(a.Value))
+				component.Transform, ok = number.ParseMatrix(string(a.Value))
 				if !ok {
 					errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
 				}
@@ -760,7 +761,7 @@ func (d *componentDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = component.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrComponent})
+				attr = newAttrGroup(a.Name.Space, attrComponent)
 				component.AnyAttr = append(component.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -818,3 +819,13 @@ func (d *unknownAssetDecoder) End() {
 	d.resource.UnknownTokens = d.UnknownTokensDecoder.Tokens()
 	d.resources.Assets = append(d.resources.Assets, &d.resource)
 }
+
+// newAttrGroup creates the attribute group for a core element.
+// The attributes of an extension that does not extend that element
+// are preserved as if the extension were unknown.
+func newAttrGroup(space, parent string) spec.AttrGroup {
+	if attr := spec.NewAttrGroup(space, xml.Name{Space: Namespace, Local: parent}); attr != nil {
+		return attr
+	}
+	return &spec.UnknownAttrs{Space: space}
+}
diff --git a/encoder.go b/encoder.go
index ace3eba..9e89d23 100644
--- a/encoder.go
+++ b/encoder.go
@@ -261,7 +261,7 @@ func (e *Encoder) writeChildModel(x spec.Encoder, m *Model, child *ChildModel) e
 	xb := xml.StartElement{Name: xml.Name{Local: attrBuild}}
 	x.EncodeToken(xb)
 	x.EncodeToken(xb.End())
-	if err := child.Any.Marshal3MF(x, &tm); err != nil {
+	if err := encodeAny(x, child.Any, &tm); err != nil {
 		return err
 	}
 	x.EncodeToken(tm.End())
@@ -282,7 +282,7 @@ func (e *Encoder) writeModel(x spec.Encoder, m *Model) error {
 	if err := e.writeBuild(x, m); err != nil {
 		return err
 	}
-	if err := m.Any.Marshal3MF(x, &tm); err != nil {
+	if err := encodeAny(x, m.Any, &tm); err != nil {
 		return err
 	}
 	x.EncodeToken(tm.End())
@@ -572,7 +572,7 @@ func (e *Encoder) writeMesh(x spec.Encoder, r *Object, m *Mesh) error {
 		return err
 	}
 
-	if err := m.Any.Marshal3MF(x, &xm); err != nil {
+	if err := encodeAny(x, m.Any, &xm); err != nil {
 		return err
 	}
 	x.EncodeToken(xm.End())
@@ -605,3 +605,13 @@ func (r *BaseMaterials) Marshal3MF(x spec.Encoder, _ *xml.StartElement) error {
 	x.EncodeToken(xt.End())
 	return nil
 }
+
+// encodeAny encodes all the extension elements.
+func encodeAny(x spec.Encoder, elements spec.Any, start *xml.StartElement) error {
+	for _, ext := range elements {
+		if err := ext.Marshal3MF(x, start); err != nil {
+			return err
+		}
+	}
+	return nil
+}
diff --git a/internal/number/number.go b/internal/number/number.go
new file mode 100644
index 0000000..4867c58
--- /dev/null
+++ b/internal/number/number.go
@@ -0,0 +1,40 @@
+// © Copyright 2021 HP Development Company, L.P.
+// SPDX-License Identifier: BSD-2-Clause
+
+// Package number parses the numbers of a 3MF document.
+package number
+
+import (
+	"strconv"
+
+	"github.com/hpinc/go3mf/spec"
+)
+
+// ParseFloat parses s as a 32 bits number. Unlike strconv.ParseFloat, it accepts
+// nothing but decimal numbers: no infinities, NaN, hexadecimals nor underscores.
+func ParseFloat(s string) (float64, error) {
+	for i := 0; i < len(s); i++ {
+		if !isDecimal(s[i]) {
+			return 0, strconv.ErrSyntax
+		}
+	}
+	return strconv.ParseFloat(s, 32)
+}
+
+// ParseMatrix parses s as a Matrix, accepting the same numbers than ParseFloat.
+func ParseMatrix(s string) ([16]float32, bool) {
+	for i := 0; i < len(s); i++ {
+		if c := s[i]; !isDecimal(c) && (c|' ' >= 'a' && c|' ' <= 'z' || c == '_') {
+			return [16]float32{}, false
+		}
+	}
+	return spec.ParseMatrix(s)
+}
+
+func isDecimal(c byte) bool {
+	switch {
+	case c >= '0' && c <= '9', c == '.', c == '-', c == '+', c == 'e', c == 'E':
+		return true
+	}
+	return false
+}
diff --git a/materials/decoder.go b/materials/decoder.go
index 3f189ae..6918e1a 100644
--- a/materials/decoder.go
+++ b/materials/decoder.go
@@ -9,6 +9,7 @@ import (
 	"strings"
 
 	specerr "github.com/hpinc/go3mf/errors"
+	"github.com/hpinc/go3mf/internal/number"
 	"github.com/hpinc/go3mf/spec"
 )
 
@@ -104,7 +105,7 @@ func (d *tex2DCoordDecoder) Start(attrs []spec.XMLAttr) error {
 		if a.Name.Space != "" {
 			continue
 		}
-		val, err := spec.ParseFloat(string(a.Value))
+		val, err := number.ParseFloat(string(a.Value))
 		if err != nil {
 			errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
 		}
@@ -279,7 +280,7 @@ func (d *compositeDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		if a.Name.Space == "" && a.Name.Local == attrValues {
 			for _, f := range strings.Fields(string(a.Value)) {
-				val, err := spec.ParseFloat(f)
+				val, err := number.ParseFloat(f)
 				if err != nil {
 					errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
 				}
diff --git a/slices/decoder.go b/slices/decoder.go
index f205359..69188ad 100644
--- a/slices/decoder.go
+++ b/slices/decoder.go
@@ -9,6 +9,7 @@ import (
 
 	"github.com/hpinc/go3mf"
 	specerr "github.com/hpinc/go3mf/errors"
+	"github.com/hpinc/go3mf/internal/number"
 	"github.com/hpinc/go3mf/spec"
 )
 
@@ -83,7 +84,7 @@ func (d *sliceStackDecoder) Start(attrs []spec.XMLAttr) error {
 			}
 			d.resource.ID = uint32(id)
 		case attrZBottom:
-			val, err := spec.ParseFloat(string(a.Value))
+			val, err := number.ParseFloat(string(a.Value))
 			if err != nil {
 				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
 			}
@@ -155,7 +156,7 @@ func (d *sliceDecoder) Start(attrs []spec.XMLAttr) error {
 	var errs error
 	for _, a := range attrs {
 		if a.Name.Space == "" && a.Name.Local == attrZTop {
-			val, err := spec.ParseFloat(string(a.Value))
+			val, err := number.ParseFloat(string(a.Value))
 			if err != nil {
 				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
 			}
@@ -199,7 +200,7 @@ func (d *polygonVertexDecoder) Start(attrs []spec.XMLAttr) error {
 		if a.Name.Space != "" {
 			continue
 		}
-		val, err := spec.ParseFloat(string(a.Value))
+		val, err := number.ParseFloat(string(a.Value))
 		if err != nil {
 			errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
 		}
diff --git a/spec/spec.go b/spec/spec.go
index e944ba0..9faae81 100644
--- a/spec/spec.go
+++ b/spec/spec.go
@@ -104,9 +104,7 @@ func (a AnyAttr) Marshal3MF(x Encoder, start *xml.StartElement) error {
 
 func NewAttrGroup(namespace string, parent xml.Name) AttrGroup {
 	if ext, ok := Load(namespace); ok {
-		if attr := ext.NewAttrGroup(parent); attr != nil {
-			return attr
-		}
+		return ext.NewAttrGroup(parent)
 	}
 	return &UnknownAttrs{
 		Space: namespace,
@@ -125,7 +123,7 @@ type Any []Marshaler
 
 func (e Any) Marshal3MF(x Encoder, start *xml.StartElement) error {
 	for _, ext := range e {
-		if err := ext.Marshal3MF(x, start); err != nil {
+		if err := ext.Marshal3MF(x, start); err == nil {
 			return err
 		}
 	}
diff --git a/spec/utils.go b/spec/utils.go
index 57895eb..8afbb24 100644
--- a/spec/utils.go
+++ b/spec/utils.go
@@ -57,19 +57,6 @@ func FormatRGBA(c color.RGBA) string {
 	return fmt.Sprintf("#%02x%02x%02x%02x", c.R, c.G, c.B, c.A)
 }
 
-// ParseFloat parses s as a 32 bits number. Unlike strconv.ParseFloat, it accepts
-// nothing but decimal numbers: no infinities, NaN, hexadecimals nor underscores.
-func ParseFloat(s string) (float64, error) {
-	for i := 0; i < len(s); i++ {
-		switch c := s[i]; {
-		case c >= '0' && c <= '9', c == '.', c == '-', c == '+', c == 'e', c == 'E':
-		default:
-			return 0, strconv.ErrSyntax
-		}
-	}
-	return strconv.ParseFloat(s, 32)
-}
-
 // ParseMatrix parses s as a Matrix.
 func ParseMatrix(s string) ([16]float32, bool) {
 	values := strings.Fields(s)
@@ -78,7 +65,7 @@ func ParseMatrix(s string) ([16]float32, bool) {
 	}
 	var t [12]float32
 	for i := 0; i < 12; i++ {
-		val, err := ParseFloat(values[i])
+		val, err := strconv.ParseFloat(values[i], 32)
 		if err != nil {
 			return [16]float32{}, false
 		}
-- 
2.43.0


From f9e5fea598581bca9b9df97832f527d92fb231d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 45/52] fix: tell binary STL files whose header starts with
 solid from ASCII ones

---
 importer/stl/ascii.go   | 8 ++++++--
 importer/stl/decoder.go | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/importer/stl/ascii.go b/importer/stl/ascii.go
index 7901f43..99c4285 100644
--- a/importer/stl/ascii.go
+++ b/importer/stl/ascii.go
@@ -37,9 +37,13 @@ func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) error {
 		if len(fields) == 0 {
 			continue
 		}
-		switch strings.ToLower(fields[0]) {
-		case "solid":
+		keyword := strings.ToLower(fields[0])
+		if strings.HasPrefix(keyword, "solid") {
+			// The name can follow without any space.
 			open = true
+			continue
+		}
+		switch keyword {
 		case "endsolid":
 			open = false
 		case "endloop":
diff --git a/importer/stl/decoder.go b/importer/stl/decoder.go
index ded0117..4156606 100644
--- a/importer/stl/decoder.go
+++ b/importer/stl/decoder.go
@@ -67,9 +67,11 @@ func (d *Decoder) isASCII(r *bufio.Reader) (bool, error) {
 	return strings.HasPrefix(header, "solid") && isASCII(header), nil
 }
 
+// isASCII returns true if s is a text, which never has null bytes,
+// while the face count of a binary file does if it is less than 1<<24.
 func isASCII(s string) bool {
 	for i := 0; i < len(s); i++ {
-		if s[i] >= utf8.RuneSelf {
+		if s[i] == 0 || s[i] >= utf8.RuneSelf {
 			return false
 		}
 	}
-- 
2.43.0


From a8a553b097552070652ddd8c712b2ff5607b23f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 46/52] fix: report that the context is done when importing
 small STL meshes

---
 importer/stl/decoder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/importer/stl/decoder.go b/importer/stl/decoder.go
index 4156606..5f87458 100644
--- a/importer/stl/decoder.go
+++ b/importer/stl/decoder.go
@@ -37,6 +37,9 @@ func (d *Decoder) Decode(m *go3mf.Model) error {
 
 // DecodeContext creates a mesh from a read stream.
 func (d *Decoder) DecodeContext(ctx context.Context, m *go3mf.Model) error {
+	if err := ctx.Err(); err != nil {
+		return err
+	}
 	b := bufio.NewReader(d.r)
 	isASCII, err := d.isASCII(b)
 	if err != nil {
@@ -50,6 +53,9 @@ func (d *Decoder) DecodeContext(ctx context.Context, m *go3mf.Model) error {
 		decoder := binaryDecoder{r: b}
 		err = decoder.decode(ctx, newMesh.Mesh)
 	}
+	if err == nil {
+		err = ctx.Err()
+	}
 	if err == nil {
 		newMesh.ID = m.Resources.UnusedID()
 		m.Resources.Objects = append(m.Resources.Objects, newMesh)
-- 
2.43.0


From 4cdc76b5981c4a44caaf61106fb1d5ae7b8f6d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 47/52] fix: relate textures and child models whose part is
 already related in another way

---
 encoder.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index 9e89d23..544745c 100644
--- a/encoder.go
+++ b/encoder.go
@@ -34,11 +34,12 @@ func newXMLEncoder(w io.Writer, floatPresicion int) *xmlEncoder {
 }
 
 // AddRelationship adds a relationship to the encoded model.
-// Duplicated relationships will be removed before encoding.
+// Duplicated relationships will be removed before encoding, and so will
+// thumbnails that are already related in some other way.
 func (enc *xmlEncoder) AddRelationship(r spec.Relationship) {
 	hasRelationship := false
 	for _, relationship := range enc.relationships {
-		if relationship.Path == r.Path {
+		if relationship.Path == r.Path && (relationship.Type == r.Type || r.Type == RelTypeThumbnail) {
 			hasRelationship = true
 			break
 		}
-- 
2.43.0


From fbfeef9c3e9e5e0d35ca9363228e5b514e33cefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:31 +0000
Subject: [PATCH 48/52] fix: saving a model writes in the relationships of its
 children

---
 encoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encoder.go b/encoder.go
index 544745c..f1197e3 100644
--- a/encoder.go
+++ b/encoder.go
@@ -194,7 +194,8 @@ func (e *Encoder) writeChildModels(m *Model) error {
 			return err
 		}
 		enc := newXMLEncoder(w, e.FloatPrecision)
-		enc.relationships = child.Relationships
+		enc.relationships = make([]Relationship, len(child.Relationships))
+		copy(enc.relationships, child.Relationships)
 		if err = e.writeChildModel(enc, m, child); err != nil {
 			return err
 		}
-- 
2.43.0


From 0481e3984ce21d4ed497e7bf267f6ecbb3594407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:39 +0000
Subject: [PATCH 49/52] fix: comments and CDATA sections are not errors

---
 internal/xml/xml.go | 92 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 84 insertions(+), 8 deletions(-)

diff --git a/internal/xml/xml.go b/internal/xml/xml.go
index 721797f..58ec83d 100644
--- a/internal/xml/xml.go
+++ b/internal/xml/xml.go
@@ -342,7 +342,7 @@ func (d *Decoder) RawToken() error {
 	if b != '<' {
 		// Text section.
 		d.ungetc(b)
-		data := d.text(-1)
+		data := d.text(-1, false)
 		if data == nil {
 			return d.err
 		}
@@ -402,6 +402,21 @@ func (d *Decoder) RawToken() error {
 			b0 = b
 		}
 		return nil
+
+	case '!':
+		// <!: Maybe a comment, maybe CDATA. Declarations are not allowed.
+		if b, ok = d.getc(); !ok {
+			d.mustNotEOF()
+			return d.err
+		}
+		switch b {
+		case '-':
+			return d.comment()
+		case '[':
+			return d.cdata()
+		}
+		d.err = d.syntaxError("declarations are not allowed")
+		return d.err
 	}
 
 	// Must be an open element like <a href="foo">
@@ -482,6 +497,57 @@ func (d *Decoder) RawToken() error {
 	return nil
 }
 
+// Skip a comment whose first "<!-" has been read.
+func (d *Decoder) comment() error {
+	b, ok := d.getc()
+	if !ok {
+		d.mustNotEOF()
+		return d.err
+	}
+	if b != '-' {
+		d.err = d.syntaxError("invalid sequence <!- not part of <!--")
+		return d.err
+	}
+	var b0, b1 byte
+	for {
+		if b, ok = d.getc(); !ok {
+			d.mustNotEOF()
+			return d.err
+		}
+		if b0 == '-' && b1 == '-' {
+			if b != '>' {
+				d.err = d.syntaxError(`invalid sequence "--" not allowed in comments`)
+				return d.err
+			}
+			return nil
+		}
+		b0, b1 = b1, b
+	}
+}
+
+// Read a CDATA section whose first "<![" has been read.
+func (d *Decoder) cdata() error {
+	for _, c := range []byte("CDATA[") {
+		b, ok := d.getc()
+		if !ok {
+			d.mustNotEOF()
+			return d.err
+		}
+		if b != c {
+			d.err = d.syntaxError("invalid <![ sequence")
+			return d.err
+		}
+	}
+	data := d.text(-1, true)
+	if d.err != nil {
+		return d.err
+	}
+	if d.OnChar != nil && len(data) > 0 {
+		d.OnChar(goxml.CharData(data))
+	}
+	return nil
+}
+
 func (d *Decoder) attrval() []byte {
 	b, ok := d.getc()
 	if !ok {
@@ -490,7 +556,7 @@ func (d *Decoder) attrval() []byte {
 	}
 	// Handle quoted attribute values
 	if b == '"' || b == '\'' {
-		return d.text(int(b))
+		return d.text(int(b), false)
 	}
 	// Handle unquoted attribute values for strict parsers
 	d.err = d.syntaxError("unquoted or missing attribute value in element")
@@ -550,18 +616,28 @@ var entity = map[string]int{
 // If quote >= 0, we are in a quoted string and need to find the matching quote.
 // If cdata == true, we are in a <![CDATA[ section and need to find ]]>.
 // On failure return nil and leave the error in d.err.
-func (d *Decoder) text(quote int) []byte {
-	var b1 byte
+func (d *Decoder) text(quote int, cdata bool) []byte {
+	var b0, b1 byte
 	d.buf.Reset()
 Input:
 	for {
 		b, ok := d.getc()
 		if !ok {
+			if cdata {
+				d.mustNotEOF()
+				return nil
+			}
+			break Input
+		}
+
+		// <![CDATA[ section ends with ]]>.
+		if cdata && b0 == ']' && b1 == ']' && b == '>' {
+			d.buf.Truncate(d.buf.Len() - 2)
 			break Input
 		}
 
 		// Stop reading text if we see a <.
-		if b == '<' {
+		if b == '<' && !cdata {
 			if quote >= 0 {
 				d.err = d.syntaxError("unescaped < inside quoted string")
 				return nil
@@ -572,7 +648,7 @@ Input:
 		if quote >= 0 && b == byte(quote) {
 			break Input
 		}
-		if b == '&' {
+		if b == '&' && !cdata {
 			// Read escaped character expression up to semicolon.
 			// XML in all its glory allows a document to define and use
 			// its own character names with <!ENTITY ...> directives.
@@ -652,7 +728,7 @@ Input:
 			if haveText {
 				d.buf.Truncate(before)
 				d.buf.Write([]byte(text))
-				b1 = 0
+				b0, b1 = 0, 0
 				continue Input
 			}
 			ent := string(d.buf.Bytes()[before:])
@@ -672,7 +748,7 @@ Input:
 			d.buf.WriteByte(b)
 		}
 
-		b1 = b
+		b0, b1 = b1, b
 	}
 	return d.buf.Bytes()
 }
-- 
2.43.0


From e62a6f9d5dc8e054955ea54d690e9bf586eb6f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:28 +0000
Subject: [PATCH 50/52] fix: identifiers that are missing are saved as empty
 ones, which are not read

---
 production/encoder.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/production/encoder.go b/production/encoder.go
index 7d41027..3bf0e4a 100644
--- a/production/encoder.go
+++ b/production/encoder.go
@@ -11,13 +11,17 @@ import (
 
 // Marshal3MF encodes the resource attributes.
 func (u *BuildAttr) Marshal3MF(_ spec.Encoder, start *xml.StartElement) error {
-	start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	if u.UUID != "" {
+		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	}
 	return nil
 }
 
 // Marshal3MF encodes the resource attributes.
 func (u *ObjectAttr) Marshal3MF(_ spec.Encoder, start *xml.StartElement) error {
-	start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	if u.UUID != "" {
+		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	}
 	return nil
 }
 
@@ -26,7 +30,9 @@ func (u *ItemAttr) Marshal3MF(_ spec.Encoder, start *xml.StartElement) error {
 	if u.Path != "" {
 		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrPath}, Value: u.Path})
 	}
-	start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	if u.UUID != "" {
+		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	}
 	return nil
 }
 
@@ -35,6 +41,8 @@ func (u *ComponentAttr) Marshal3MF(_ spec.Encoder, start *xml.StartElement) erro
 	if u.Path != "" {
 		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrPath}, Value: u.Path})
 	}
-	start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	if u.UUID != "" {
+		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	}
 	return nil
 }
-- 
2.43.0


From b3e1734b16f4f6c2d50f1a7e2ea7dfced01dfee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:53 +0000
Subject: [PATCH 51/52] fix: bounding boxes of shared components are computed
 once

---
 core.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/core.go b/core.go
index 8fc5fce..30e5c8a 100644
--- a/core.go
+++ b/core.go
@@ -236,7 +236,7 @@ func (m *Model) BoundingBox() Box {
 			defer wg.Done()
 			item := m.Build.Items[i]
 			if o, ok := m.FindObject(item.ObjectPath(), item.ObjectID); ok {
-				if ibox, ok := o.boundingBox(m, item.ObjectPath()); ok {
+				if ibox, ok := o.boundingBox(m, item.ObjectPath(), make(map[objectInPart]objectBox)); ok {
 					mu.Lock()
 					box = box.extend(item.Transform.MulBox(ibox))
 					empty = false
@@ -405,31 +405,41 @@ type Object struct {
 	AnyAttr    spec.AnyAttr
 }
 
+type objectInPart struct {
+	path string
+	obj  *Object
+}
+
+type objectBox struct {
+	box Box
+	ok  bool
+}
+
 // boundingBox returns the bounding box of the object and
-// whether it has any vertex. Components which lead back to one of
-// the parents are ignored.
-func (o *Object) boundingBox(m *Model, path string, parents ...*Object) (Box, bool) {
+// whether it has any vertex. The boxes already computed are not computed
+// again, and components which lead back to their object are ignored.
+func (o *Object) boundingBox(m *Model, path string, boxes map[objectInPart]objectBox) (Box, bool) {
 	if o.Mesh != nil {
 		return o.Mesh.BoundingBox(), len(o.Mesh.Vertices.Vertex) != 0
 	}
 	if o.Components == nil {
 		return Box{}, false
 	}
-	for _, p := range parents {
-		if p == o {
-			return Box{}, false
-		}
+	key := objectInPart{path, o}
+	if b, ok := boxes[key]; ok {
+		return b.box, b.ok
 	}
-	parents = append(parents, o)
+	boxes[key] = objectBox{}
 	box, ok := newLimitBox(), false
 	for _, c := range o.Components.Component {
 		cpath := c.ObjectPath(path)
 		if obj, found := m.FindObject(cpath, c.ObjectID); found {
-			if cbox, nonEmpty := obj.boundingBox(m, cpath, parents...); nonEmpty {
+			if cbox, nonEmpty := obj.boundingBox(m, cpath, boxes); nonEmpty {
 				box, ok = box.extend(c.Transform.MulBox(cbox)), true
 			}
 		}
 	}
+	boxes[key] = objectBox{box, ok}
 	return box, ok
 }
 
-- 
2.43.0


From 2b7a30fd3562301c66ebae044e49704210ddf5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:42 +0000
Subject: [PATCH 52/52] fix: find the parts whose relative targets have dot
 segments

---
 opc.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opc.go b/opc.go
index 52588f0..ff05b10 100644
--- a/opc.go
+++ b/opc.go
@@ -5,6 +5,7 @@ package go3mf
 
 import (
 	"io"
+	"path"
 
 	"github.com/qmuntal/opc"
 )
@@ -87,7 +88,7 @@ func (o *opcFile) ContentType() string {
 }
 
 func (o *opcFile) FindFileFromName(name string) (packageFile, bool) {
-	name = opc.ResolveRelationship(o.f.Name, name)
+	name = path.Clean(opc.ResolveRelationship(o.f.Name, name))
 	return findOPCFileFromName(name, o.r)
 }
 
@@ -114,7 +115,7 @@ func (o *opcReader) Relationships() []Relationship {
 }
 
 func (o *opcReader) FindFileFromName(name string) (packageFile, bool) {
-	name = opc.ResolveRelationship("/", name)
+	name = path.Clean(opc.ResolveRelationship("/", name))
 	return findOPCFileFromName(name, o.r)
 }
 
-- 
2.43.0

