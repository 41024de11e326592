# C24: scanning one slice image

extern pure (image.Image).Bounds (image.Image).At
extern pure (image/color.Model).Convert

define gray(x, y) = color.GrayModel.Convert(img.At(x, y))
define dense(x, y) = unbox(gray(x, y), color.Gray).Y >= 128
define inImage(x, y) = img.Bounds().Min.X <= x && x < img.Bounds().Max.X && img.Bounds().Min.Y <= y && y < img.Bounds().Max.Y

func svx2stl:scanImage
  props C24
  requires img != nil && model != nil && model.WhiteVoxels != nil
  # the gray colour model returns gray colours
  assumes [gray model] forall(x, y, trig(img.At(x, y)), istype(gray(x, y), color.Gray))
  modifies contents(model.WhiteVoxels)
  loop 1: inv [rows] forall(k(binvox.Key), trig(has(model.WhiteVoxels, k)), iff(has(model.WhiteVoxels, k), old(has(model.WhiteVoxels, k)) || k.Z == z && inImage(k.X, k.Y) && k.Y < y && dense(k.X, k.Y)))
  loop 2: inv [row] forall(k(binvox.Key), trig(has(model.WhiteVoxels, k)), iff(has(model.WhiteVoxels, k), old(has(model.WhiteVoxels, k)) || k.Z == z && inImage(k.X, k.Y) && (k.Y < y || k.Y == y && k.X < x) && dense(k.X, k.Y)))
  ensures [exact] forall(k(binvox.Key), trig(has(model.WhiteVoxels, k)), iff(has(model.WhiteVoxels, k), old(has(model.WhiteVoxels, k)) || k.Z == z && inImage(k.X, k.Y) && dense(k.X, k.Y)))
