From 5d4a4b34e89b94e7c39dbddbd28468bb6d75f921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:53 +0000
Subject: [PATCH 01/27] fix: close the HDF5 dataspaces and datatype opened by
 the dataset and attribute helpers

---
 include/hdf5_utils.hpp | 10 ++++++++++
 src/hdf5_utils.cpp     | 15 +++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/include/hdf5_utils.hpp b/include/hdf5_utils.hpp
index 1a31d9b..e27a2ce 100644
--- a/include/hdf5_utils.hpp
+++ b/include/hdf5_utils.hpp
@@ -146,6 +146,8 @@ void ReadDataset(hid_t &source, std::string dataset, Array<T> &value)
       H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
    }
 
+   errf = H5Sclose(dspace_id);
+   assert(errf >= 0);
    errf = H5Dclose(dset_id);
    assert(errf >= 0);
 }
@@ -169,6 +171,8 @@ void ReadDataset(hid_t &source, std::string dataset, Array2D<T> &value)
    value.SetSize(dims[0], dims[1]);
    if ((dims[0] == 0) || (dims[1] == 0))
    {
+      errf = H5Sclose(dspace_id);
+      assert(errf >= 0);
       errf = H5Dclose(dset_id);
       assert(errf >= 0);
 
@@ -178,6 +182,8 @@ void ReadDataset(hid_t &source, std::string dataset, Array2D<T> &value)
    hid_t dataType = hdf5_utils::GetType(value(0, 0));
    H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.GetRow(0));
 
+   errf = H5Sclose(dspace_id);
+   assert(errf >= 0);
    errf = H5Dclose(dset_id);
    assert(errf >= 0);
 }
@@ -207,6 +213,8 @@ void WriteDataset(hid_t &source, std::string dataset, const Array<T> &value)
       assert(errf >= 0);
    }
 
+   errf = H5Sclose(dspace_id);
+   assert(errf >= 0);
    errf = H5Dclose(dset_id);
    assert(errf >= 0);
 }
@@ -230,6 +238,8 @@ void WriteDataset(hid_t &source, std::string dataset, const Array2D<T> &value)
    errf = H5Dwrite(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.GetRow(0));
    assert(errf >= 0);
 
+   errf = H5Sclose(dspace_id);
+   assert(errf >= 0);
    errf = H5Dclose(dset_id);
    assert(errf >= 0);
 }
diff --git a/src/hdf5_utils.cpp b/src/hdf5_utils.cpp
index 1109241..180ebc2 100644
--- a/src/hdf5_utils.cpp
+++ b/src/hdf5_utils.cpp
@@ -39,6 +39,8 @@ int GetDatasetSize(hid_t &source, std::string dataset, hsize_t* &dims)
    errf = H5Sget_simple_extent_dims(dspace_id, dims, NULL);
    assert(errf >= 0);
 
+   errf = H5Sclose(dspace_id);
+   assert(errf >= 0);
    errf = H5Dclose(dset_id);
    assert(errf >= 0);
 
@@ -65,6 +67,7 @@ void ReadAttribute(hid_t &source, std::string attribute, std::string &value)
    assert(status >= 0);
 
    H5Aclose(attr);
+   H5Tclose(tmp);
    value = tmp_str->c_str();
 }
 
@@ -115,6 +118,8 @@ void ReadDataset(hid_t &source, std::string dataset, DenseMatrix &value)
    hid_t dataType = hdf5_utils::GetType(value(0, 0));
    H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
 
+   errf = H5Sclose(dspace_id);
+   assert(errf >= 0);
    errf = H5Dclose(dset_id);
    assert(errf >= 0);
 }
@@ -138,6 +143,8 @@ void WriteDataset(hid_t &source, std::string dataset, const DenseMatrix &value)
    errf = H5Dwrite(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Read());
    assert(errf >= 0);
 
+   errf = H5Sclose(dspace_id);
+   assert(errf >= 0);
    errf = H5Dclose(dset_id);
    assert(errf >= 0);
 }
@@ -356,6 +363,8 @@ void ReadDataset(hid_t &source, std::string dataset, Vector &value)
    hid_t dataType = hdf5_utils::GetType(value[0]);
    H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
 
+   errf = H5Sclose(dspace_id);
+   assert(errf >= 0);
    errf = H5Dclose(dset_id);
    assert(errf >= 0);
 }
@@ -378,6 +387,8 @@ void WriteDataset(hid_t &source, std::string dataset, const Vector &value)
    errf = H5Dwrite(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Read());
    assert(errf >= 0);
 
+   errf = H5Sclose(dspace_id);
+   assert(errf >= 0);
    errf = H5Dclose(dset_id);
    assert(errf >= 0);
 }
@@ -402,6 +413,8 @@ void ReadDataset(hid_t &source, std::string dataset, DenseTensor &value)
    hid_t dataType = hdf5_utils::GetType(value(0, 0, 0));
    H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
 
+   errf = H5Sclose(dspace_id);
+   assert(errf >= 0);
    errf = H5Dclose(dset_id);
    assert(errf >= 0);
 }
@@ -426,6 +439,8 @@ void WriteDataset(hid_t &source, std::string dataset, const DenseTensor &value)
    errf = H5Dwrite(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Read());
    assert(errf >= 0);
 
+   errf = H5Sclose(dspace_id);
+   assert(errf >= 0);
    errf = H5Dclose(dset_id);
    assert(errf >= 0);
 }
-- 
2.43.0


From d2f84c0c56f1ff2ffb3f4b6a212c90982332d7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:53 +0000
Subject: [PATCH 02/27] fix: close the port and topology files and groups on
 the early exits of their readers

---
 src/component_topology_handler.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/component_topology_handler.cpp b/src/component_topology_handler.cpp
index 25a2a86..0f1ca80 100644
--- a/src/component_topology_handler.cpp
+++ b/src/component_topology_handler.cpp
@@ -399,7 +399,11 @@ bool ComponentTopologyHandler::ReadBoundariesFromFile(const std::string filename
       assert(errf >= 0);
    }
    else
+   {
+      errf = H5Fclose(file_id);
+      assert(errf >= 0);
       return false;
+   }
 
    {  // Boundary data.
       Array2D<int> tmp;
@@ -455,7 +459,12 @@ void ComponentTopologyHandler::ReadPortDatasFromFile(const std::string filename)
 
       int port_idx = port_name2idx[port_name];
       // Skip if the port is already set up.
-      if (ref_ports[port_idx] != NULL) continue;
+      if (ref_ports[port_idx] != NULL)
+      {
+         errf = H5Gclose(grp_id);
+         assert(errf >= 0);
+         continue;
+      }
 
       int battr1, battr2;
       hdf5_utils::ReadAttribute(grp_id, "bdr_attr1", battr1);
-- 
2.43.0


From 6070831447aeff8312f36f7ca611e602a9f3b83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:11 +0000
Subject: [PATCH 03/27] fix: check the status of the HDF5 reads and closes that
 were ignored

---
 include/hdf5_utils.hpp | 15 ++++++++++-----
 src/hdf5_utils.cpp     | 24 ++++++++++++++++--------
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/include/hdf5_utils.hpp b/include/hdf5_utils.hpp
index e27a2ce..6ffc564 100644
--- a/include/hdf5_utils.hpp
+++ b/include/hdf5_utils.hpp
@@ -106,7 +106,8 @@ void ReadAttribute(hid_t &source, std::string attribute, T &value) {
    attr = H5Aopen_name(source, attribute.c_str());
    status = H5Aread(attr, attrType, &value);
    assert(status >= 0);
-   H5Aclose(attr);
+   status = H5Aclose(attr);
+   assert(status >= 0);
 }
 
 template <typename T>
@@ -119,8 +120,10 @@ void WriteAttribute(hid_t &dest, std::string attribute, const T &value) {
    assert(attr >= 0);
    status = H5Awrite(attr, attrType, &value);
    assert(status >= 0);
-   H5Aclose(attr);
-   H5Sclose(dataspaceId);
+   status = H5Aclose(attr);
+   assert(status >= 0);
+   status = H5Sclose(dataspaceId);
+   assert(status >= 0);
 }
 
 template <typename T>
@@ -143,7 +146,8 @@ void ReadDataset(hid_t &source, std::string dataset, Array<T> &value)
    if (dims[0] > 0)
    {
       hid_t dataType = hdf5_utils::GetType(value[0]);
-      H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
+      errf = H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
+      assert(errf >= 0);
    }
 
    errf = H5Sclose(dspace_id);
@@ -180,7 +184,8 @@ void ReadDataset(hid_t &source, std::string dataset, Array2D<T> &value)
    }
 
    hid_t dataType = hdf5_utils::GetType(value(0, 0));
-   H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.GetRow(0));
+   errf = H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.GetRow(0));
+   assert(errf >= 0);
 
    errf = H5Sclose(dspace_id);
    assert(errf >= 0);
diff --git a/src/hdf5_utils.cpp b/src/hdf5_utils.cpp
index 180ebc2..066f7c1 100644
--- a/src/hdf5_utils.cpp
+++ b/src/hdf5_utils.cpp
@@ -66,8 +66,10 @@ void ReadAttribute(hid_t &source, std::string attribute, std::string &value)
    status = H5Aread(attr, tmp, tmp_str);
    assert(status >= 0);
 
-   H5Aclose(attr);
-   H5Tclose(tmp);
+   status = H5Aclose(attr);
+   assert(status >= 0);
+   status = H5Tclose(tmp);
+   assert(status >= 0);
    value = tmp_str->c_str();
 }
 
@@ -81,9 +83,12 @@ void WriteAttribute(hid_t &dest, std::string attribute, const std::string &value
    assert(attr >= 0);
    status = H5Awrite(attr, attrType, &value);
    assert(status >= 0);
-   H5Aclose(attr);
-   H5Sclose(dataspaceId);
-   H5Tclose(attrType);
+   status = H5Aclose(attr);
+   assert(status >= 0);
+   status = H5Sclose(dataspaceId);
+   assert(status >= 0);
+   status = H5Tclose(attrType);
+   assert(status >= 0);
 }
 
 void ReadAttribute(hid_t &source, std::string attribute, BasisTag &value)
@@ -116,7 +121,8 @@ void ReadDataset(hid_t &source, std::string dataset, DenseMatrix &value)
    // hdf5 is row-major, while mfem::DenseMatrix is column major. we load the transpose.
    value.SetSize(dims[1], dims[0]);
    hid_t dataType = hdf5_utils::GetType(value(0, 0));
-   H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
+   errf = H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
+   assert(errf >= 0);
 
    errf = H5Sclose(dspace_id);
    assert(errf >= 0);
@@ -361,7 +367,8 @@ void ReadDataset(hid_t &source, std::string dataset, Vector &value)
 
    value.SetSize(dims[0]);
    hid_t dataType = hdf5_utils::GetType(value[0]);
-   H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
+   errf = H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
+   assert(errf >= 0);
 
    errf = H5Sclose(dspace_id);
    assert(errf >= 0);
@@ -411,7 +418,8 @@ void ReadDataset(hid_t &source, std::string dataset, DenseTensor &value)
    // hdf5 is row-major, while mfem::DenseTensor is column major. we load the transpose.
    value.SetSize(dims[2], dims[1], dims[0]);
    hid_t dataType = hdf5_utils::GetType(value(0, 0, 0));
-   H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
+   errf = H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
+   assert(errf >= 0);
 
    errf = H5Sclose(dspace_id);
    assert(errf >= 0);
-- 
2.43.0


From f437cf96a3e4f7af4fd7948b87435174effb2df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:47 +0000
Subject: [PATCH 04/27] fix: reject an unknown
 model_reduction/nonlinear_handling instead of ignoring it

---
 src/rom_handler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rom_handler.cpp b/src/rom_handler.cpp
index 3edc51f..b55817b 100644
--- a/src/rom_handler.cpp
+++ b/src/rom_handler.cpp
@@ -157,6 +157,8 @@ void ROMHandlerBase::ParseInputs()
    std::string nlin_handle_str = config.GetOption<std::string>("model_reduction/nonlinear_handling", "none");
    if (nlin_handle_str == "tensor")    nlin_handle = NonlinearHandling::TENSOR;
    else if (nlin_handle_str == "eqp")  nlin_handle = NonlinearHandling::EQP;
+   else if (nlin_handle_str != "none")
+      mfem_error("ROMHandlerBase: unknown nonlinear handling!\n");
    assert((!nonlinear_mode) || (nlin_handle != NonlinearHandling::NUM_NLNHNDL));
 
    std::string ordering_str = config.GetOption<std::string>("model_reduction/ordering", "domain");
-- 
2.43.0


From cebbb9006c58ef8d772b86c657b4cdbbcd84ca21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:35 +0000
Subject: [PATCH 05/27] fix: DGLaxFriedrichs fast gradient: pass this face's
 interior flag, not the member left by an earlier call

---
 src/interfaceinteg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interfaceinteg.cpp b/src/interfaceinteg.cpp
index e791a07..e75a4a8 100644
--- a/src/interfaceinteg.cpp
+++ b/src/interfaceinteg.cpp
@@ -1826,7 +1826,7 @@ void DGLaxFriedrichsFluxIntegrator::AddAssembleGrad_Fast(
       CalcOrtho(T.Jacobian(), nor);
    }
 
-   ComputeGradFluxDotN(u1, u2, nor, eval2, ndofs2, gradu1, gradu2);
+   ComputeGradFluxDotN(u1, u2, nor, eval2, el2, gradu1, gradu2);
 
    double w = qw;
    if (Q) 
-- 
2.43.0


From 1b819303d023ff1484c32a5f3c2e04779de7614c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:06 +0000
Subject: [PATCH 06/27] fix: VectorConvectionTrilinearFormIntegrator: use vQ in
 the gradients and the fast routines too

---
 src/hyperreduction_integ.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/hyperreduction_integ.cpp b/src/hyperreduction_integ.cpp
index 6b3a7b3..b9b4ae2 100644
--- a/src/hyperreduction_integ.cpp
+++ b/src/hyperreduction_integ.cpp
@@ -365,7 +365,10 @@ void VectorConvectionTrilinearFormIntegrator::AssembleElementGrad(
       }
 
       MultAtB(EF, dshapex, gradEF);
-      EF.MultTranspose(shape, vec1);
+      if (vQ)
+         vQ->Eval(vec1, trans, ip);
+      else
+         EF.MultTranspose(shape, vec1);
 
       trans.AdjugateJacobian().Mult(vec1, vec2);
 
@@ -378,6 +381,8 @@ void VectorConvectionTrilinearFormIntegrator::AssembleElementGrad(
          elmat.AddMatrix(elmat_comp, ii * nd, ii * nd);
       }
 
+      if (vQ) { continue; } // the convecting velocity does not depend on the solution
+
       MultVVt(shape, elmat_comp);
       w = ip.weight * trans.Weight();
       if (Q)
@@ -434,7 +439,10 @@ void VectorConvectionTrilinearFormIntegrator::AssembleQuadratureGrad(
    }
 
    MultAtB(EF, dshapex, gradEF);
-   EF.MultTranspose(shape, vec1);
+   if (vQ)
+      vQ->Eval(vec1, trans, ip);
+   else
+      EF.MultTranspose(shape, vec1);
 
    trans.AdjugateJacobian().Mult(vec1, vec2);
 
@@ -447,6 +455,8 @@ void VectorConvectionTrilinearFormIntegrator::AssembleQuadratureGrad(
       elmat.AddMatrix(elmat_comp, ii * nd, ii * nd);
    }
 
+   if (vQ) { return; } // the convecting velocity does not depend on the solution
+
    MultVVt(shape, elmat_comp);
    // w = ip.weight * trans.Weight();
    w = iw * trans.Weight();
@@ -478,7 +488,10 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleVector_Fast(
 
    dim = shape1->NumRows();
    Vector vec1(dim), vec2(dim);
-   shape1->Mult(x, vec1);
+   if (vQ)
+      vQ->Eval(vec1, T, ip);
+   else
+      shape1->Mult(x, vec1);
 
    gradEF.SetSize(dim);
    gradEF = 0.0;
@@ -506,7 +519,10 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleGrad_Fast(
    dim = shape1->NumRows();
    int nbasis = shape1->NumCols();
    Vector vec1(dim), vec2(dim);
-   shape1->Mult(x, vec1);
+   if (vQ)
+      vQ->Eval(vec1, T, ip);
+   else
+      shape1->Mult(x, vec1);
 
    gradEF.SetSize(dim);
    gradEF = 0.0;
@@ -515,7 +531,10 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleGrad_Fast(
    gradEF *= w;
 
    ELV.SetSize(dim, nbasis);
-   Mult(gradEF, *shape1, ELV);
+   if (vQ)
+      ELV = 0.0; // the convecting velocity does not depend on the solution
+   else
+      Mult(gradEF, *shape1, ELV);
 
    for (int k = 0; k < nbasis; k++)
    {
-- 
2.43.0


From 5c6cab90976053719b73145a7fd167c314c216d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:37 +0000
Subject: [PATCH 07/27] fix: set the number of parameters in the linear
 elasticity problems

param_num was never set by the LinElast* constructors, so GetNumParams() and
the range check of SetParams(indexes, values) used an indeterminate value.
---
 src/parameterized_problem.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index 10699fc..57d132f 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -1014,6 +1014,8 @@ ForceDrivenCorner::ForceDrivenCorner()
 LinElastDisp::LinElastDisp()
     : LinElastProblem()
 {
+   param_num = 3;
+
    // pointer to static function.
    bdr_type.SetSize(3);
    battr.SetSize(3);
@@ -1056,6 +1058,8 @@ LinElastDisp::LinElastDisp()
 LinElastDispLCantilever::LinElastDispLCantilever()
     : LinElastProblem()
 {
+   param_num = 3;
+
    // pointer to static function.
    bdr_type.SetSize(3);
    battr.SetSize(3);
@@ -1098,6 +1102,8 @@ LinElastDispLCantilever::LinElastDispLCantilever()
 LinElastDispLattice::LinElastDispLattice()
     : LinElastProblem()
 {
+   param_num = 3;
+
    // pointer to static function.
    bdr_type.SetSize(5);
    battr.SetSize(5);
@@ -1155,6 +1161,8 @@ LinElastDispLattice::LinElastDispLattice()
 LinElastForceCantilever::LinElastForceCantilever()
     : LinElastProblem()
 {
+   param_num = 3;
+
    // pointer to static function.
    bdr_type.SetSize(5);
    battr.SetSize(5);
@@ -1211,6 +1219,8 @@ LinElastForceCantilever::LinElastForceCantilever()
 LinElastFrameWind::LinElastFrameWind()
     : LinElastProblem()
 {
+   param_num = 5;
+
    // pointer to static function.
    bdr_type.SetSize(5);
    battr.SetSize(5);
@@ -1323,6 +1333,8 @@ AdvDiffFlowPastArray::~AdvDiffFlowPastArray()
 LinElastComponentWiseTrain::LinElastComponentWiseTrain()
     : LinElastProblem()
 {
+   param_num = 40;
+
    // pointer to static function.
    bdr_type.SetSize(5);
    battr.SetSize(5);
-- 
2.43.0


From b3022c9105f1949989033a3e669093fe0af3a71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:53 +0000
Subject: [PATCH 08/27] fix: give the unloaded boundary of LinElastFrameWind
 its own attribute

The comment says boundary 5; attribute 3 was assigned twice, so boundary 5
kept no type and the second entry for 3 was never found.
---
 src/parameterized_problem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index 57d132f..67d8d96 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -1247,7 +1247,7 @@ LinElastFrameWind::LinElastFrameWind()
    vector_bdr_ptr[3] = &(function_factory::linelast_frame_wind::dirichlet);
 
    // battr 5: Unloaded
-   battr[4] = 3;
+   battr[4] = 5;
    bdr_type[4] = BoundaryType::NEUMANN;
    vector_bdr_ptr[4] = NULL;
 
-- 
2.43.0


From 5e616805f45ec1ff71cec40328ba1748e855c3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:34 +0000
Subject: [PATCH 09/27] fix: looking up a missing option does not change the
 settings

---
 src/input_parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/input_parser.cpp b/src/input_parser.cpp
index 17a57f7..2cc79a5 100644
--- a/src/input_parser.cpp
+++ b/src/input_parser.cpp
@@ -58,12 +58,14 @@ YAML::Node InputParser::FindNodeFromDict(const std::string &keys, YAML::Node inp
    int dd = 0;
    for (std::string s; std::getline(key_iterator, s, '/'); )
    {
-      if (!(nodes.back()[s]))
+      // looking up through a const reference: operator[] of a non-const node may change the node.
+      const YAML::Node &parent = nodes.back();
+      if (!(parent[s]))
       {
          if (create)
             nodes.back()[s] = YAML::Node();
          else
-            return nodes.back()[s];
+            return YAML::Node(YAML::NodeType::Undefined);
       }
 
       nodes.push_back(nodes.back()[s]);
-- 
2.43.0


From 885f3e57a5c7cd881c268caf4241afdb5b9bab95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:34 +0000
Subject: [PATCH 10/27] fix: sampled integer parameters reach the maximum

---
 src/parameter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parameter.cpp b/src/parameter.cpp
index 222378e..6caac2c 100644
--- a/src/parameter.cpp
+++ b/src/parameter.cpp
@@ -89,8 +89,8 @@ const int IntegerParam::GetInteger(const int &param_index)
    int val = -1;
 
    int Np = (size == 1) ? 1 : (size - 1);
-   int dp = (maxval - minval) / Np;
-   val = minval + param_index * dp;
+   // divide last, so that the last index reaches the maximum.
+   val = minval + static_cast<int>((static_cast<long>(maxval - minval) * param_index) / Np);
 
    return val;
 }
-- 
2.43.0


From 7eacdf0bdf93b674400c3ade8e775d6c658894c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:54 +0000
Subject: [PATCH 11/27] fix: reject a sample index outside the sample grid

---
 src/sample_generator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sample_generator.cpp b/src/sample_generator.cpp
index d58c0e6..a6dabaf 100644
--- a/src/sample_generator.cpp
+++ b/src/sample_generator.cpp
@@ -138,6 +138,7 @@ const int SampleGenerator::GetSampleIndex(const Array<int> &index)
 
 const Array<int> SampleGenerator::GetSampleIndex(const int &index)
 {
+   assert((index >= 0) && (index < total_samples));
    Array<int> nested_idx(num_sampling_params);
 
    // compute nested local index, row-major.
-- 
2.43.0


From e7c1e0b3a0e93757bb79b65a42d648043ea15075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:54 +0000
Subject: [PATCH 12/27] fix: MixedInterfaceForm operations that are not
 implemented stop with an error

---
 include/interface_form.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/interface_form.hpp b/include/interface_form.hpp
index 24ffdf6..902a7da 100644
--- a/include/interface_form.hpp
+++ b/include/interface_form.hpp
@@ -140,10 +140,10 @@ public:
                                       Array<FiniteElementSpace *> &test_fes_comp, Array2D<SparseMatrix *> &mats_p) const;
 
    void InterfaceAddMult(const Vector &x, Vector &y) const
-   { "MixedInterfaceForm::InterfaceAddMult is not implemented yet!\n"; }
+   { mfem_error("MixedInterfaceForm::InterfaceAddMult is not implemented yet!\n"); }
 
    void InterfaceGetGradient(const Vector &x, Array2D<SparseMatrix *> &mats) const
-   { "MixedInterfaceForm::InterfaceGetGradient is not implemented yet!\n"; }
+   { mfem_error("MixedInterfaceForm::InterfaceGetGradient is not implemented yet!\n"); }
 
 protected:
 
-- 
2.43.0


From 5c9cc24b66ebcf4d34e0d3415d2e56cd82f2a1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:54 +0000
Subject: [PATCH 13/27] fix: ROMTensorElement::Save and Load are not
 implemented and say so

---
 include/rom_element_collection.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/rom_element_collection.hpp b/include/rom_element_collection.hpp
index 14b4ce8..5534d4d 100644
--- a/include/rom_element_collection.hpp
+++ b/include/rom_element_collection.hpp
@@ -89,8 +89,10 @@ public:
 
    virtual ~ROMTensorElement();
 
-   void Save(const std::string &filename) override {}
-   void Load(const std::string &filename) override {}
+   void Save(const std::string &filename) override
+   { mfem_error("ROMTensorElement::Save is not implemented yet!\n"); }
+   void Load(const std::string &filename) override
+   { mfem_error("ROMTensorElement::Load is not implemented yet!\n"); }
 
 };
 
-- 
2.43.0


From 048262839ff40fbcf6bdb076509f1ae257122464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:54 +0000
Subject: [PATCH 14/27] fix: solver operations that are not provided stop with
 an error

---
 include/multiblock_solver.hpp | 3 ++-
 src/linelast_solver.cpp       | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/multiblock_solver.hpp b/include/multiblock_solver.hpp
index ea327e0..095e2a2 100644
--- a/include/multiblock_solver.hpp
+++ b/include/multiblock_solver.hpp
@@ -260,7 +260,8 @@ public:
    void ComputeRelativeError(Array<GridFunction *> fom_sols, Array<GridFunction *> rom_sols, Vector &error);
    void CompareSolution(BlockVector &test_U, Vector &error);
 
-   virtual void SaveEQPCoords(const std::string &filename) {}
+   virtual void SaveEQPCoords(const std::string &filename)
+   { mfem_error("Abstract method MultiBlockSolver::SaveEQPCoords!\n"); }
 
 protected:
    virtual void AssembleROMMat(BlockMatrix &romMat);
diff --git a/src/linelast_solver.cpp b/src/linelast_solver.cpp
index b78b0f4..12a3f04 100644
--- a/src/linelast_solver.cpp
+++ b/src/linelast_solver.cpp
@@ -582,4 +582,4 @@ void LinElastSolver::BuildItfaceROMLinElems()
          for (int j = 0; j < 2; j++) delete spmats(i, j);
    }  // for (int p = 0; p < num_ref_ports; p++)
 }
-void LinElastSolver::SanityCheckOnCoeffs() { "LinElastSolver::SanityCheckOnCoeffs is not implemented yet!\n"; }
+void LinElastSolver::SanityCheckOnCoeffs() { mfem_error("LinElastSolver::SanityCheckOnCoeffs is not implemented yet!\n"); }
-- 
2.43.0


From 73b002d8a5e98c3728cda20136793d4177f0e89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:54 +0000
Subject: [PATCH 15/27] fix: SchurOperator rejects an operator AMG cannot use

---
 include/stokes_solver.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stokes_solver.hpp b/include/stokes_solver.hpp
index e117195..740e4ea 100644
--- a/include/stokes_solver.hpp
+++ b/include/stokes_solver.hpp
@@ -41,6 +41,7 @@ public:
       if (use_amg)
       {
          HypreParMatrix *A_amg = dynamic_cast<HypreParMatrix *>(A_);
+         if (!A_amg) mfem_error("SchurOperator: AMG requires a HypreParMatrix!\n");
          A = A_amg;
          amg_prec = new HypreBoomerAMG(*A_amg);
          amg_prec->SetPrintLevel(0);
-- 
2.43.0


From 31afb13ebb7d1fa47e989f2fdbd5b8cf44936d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:54 +0000
Subject: [PATCH 16/27] fix: TemamTrilinearFormIntegrator rejects a velocity it
 would ignore

---
 include/nonlinear_integ.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/nonlinear_integ.hpp b/include/nonlinear_integ.hpp
index 10b7e66..824b9d2 100644
--- a/include/nonlinear_integ.hpp
+++ b/include/nonlinear_integ.hpp
@@ -27,7 +27,11 @@ private:
 
 public:
    TemamTrilinearFormIntegrator(Coefficient &q, VectorCoefficient *vq = NULL)
-      : Q(&q), vQ(vq) { }
+      : Q(&q), vQ(vq)
+   {
+      if (vQ)
+         mfem_error("TemamTrilinearFormIntegrator does not support a given convecting velocity!\n");
+   }
 
    TemamTrilinearFormIntegrator() = default;
 
-- 
2.43.0


From f9ca5140fc9e9f648c383f05a4d46418cb035e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:24 +0000
Subject: [PATCH 17/27] fix: TimeProfiler::Print reduces over several processes

Only the root may pass MPI_IN_PLACE to MPI_Reduce, and the root is the one of
the profiler's own communicator. With two processes the call aborted.
---
 include/etc.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/etc.hpp b/include/etc.hpp
index 9aad33e..946b395 100644
--- a/include/etc.hpp
+++ b/include/etc.hpp
@@ -58,7 +58,7 @@ public:
     TimeProfiler(const std::string &title_, MPI_Comm comm_=MPI_COMM_WORLD)
         : title(title_), comm(comm_)
     {
-        MPI_Comm_rank(MPI_COMM_WORLD, &rank);
+        MPI_Comm_rank(comm, &rank);
         calls.SetSize(0);
         names.clear();
         indices.clear();
@@ -126,8 +126,8 @@ public:
             times[k] = timers[k]->RealTime();
         double total = times.Sum();
 
-        MPI_Reduce(MPI_IN_PLACE, times.GetData(), nfunc, MPI_DOUBLE, MPI_SUM, 0, comm);
-        MPI_Reduce(MPI_IN_PLACE, calls.GetData(), nfunc, MPI_INT, MPI_SUM, 0, comm);
+        MPI_Reduce((rank == 0) ? MPI_IN_PLACE : times.GetData(), times.GetData(), nfunc, MPI_DOUBLE, MPI_SUM, 0, comm);
+        MPI_Reduce((rank == 0) ? MPI_IN_PLACE : calls.GetData(), calls.GetData(), nfunc, MPI_INT, MPI_SUM, 0, comm);
 
         if (rank == 0)
         {
-- 
2.43.0


From 6ee50f933e553ecd0799d2996de36348bf308018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:24 +0000
Subject: [PATCH 18/27] fix: InputParser broadcasts exactly the bytes of the
 input

The count was the capacity of each process's own string: it need not agree
between processes, and exceeds the contents.
---
 src/input_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input_parser.cpp b/src/input_parser.cpp
index 2cc79a5..8ee1a2a 100644
--- a/src/input_parser.cpp
+++ b/src/input_parser.cpp
@@ -31,7 +31,7 @@ InputParser::InputParser(const std::string &input_file, const std::string forced
       else
          ss.resize(bufferSize);
 
-      MPI_Bcast(&ss[0], ss.capacity(), MPI_CHAR, 0, MPI_COMM_WORLD);
+      MPI_Bcast(&ss[0], bufferSize, MPI_CHAR, 0, MPI_COMM_WORLD);
 
       dict_ = YAML::Load(ss);
    }
-- 
2.43.0


From d5744ceae7da8c6fe6010657c711a03817a5379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:46 +0000
Subject: [PATCH 19/27] fix: free the face map built by BuildSubMeshBoundary2D

---
 src/topology_handler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/topology_handler.cpp b/src/topology_handler.cpp
index 3f5670a..b7fc4a6 100644
--- a/src/topology_handler.cpp
+++ b/src/topology_handler.cpp
@@ -322,8 +322,12 @@ void SubMeshTopologyHandler::BuildSubMeshBoundary2D(const Mesh& pm, SubMesh& sm,
    const int generated_battr = pmesh->bdr_attributes.Max() + 1;
 
    // Array<int> parent_face_map = submesh.GetParentFaceIDMap();
+   Array<int> own_face_map;
    if (parent_face_map == NULL)
-      parent_face_map = new Array<int>(BuildFaceMap2D(pm, sm));
+   {
+      own_face_map = BuildFaceMap2D(pm, sm);
+      parent_face_map = &own_face_map;
+   }
 
    // Setting boundary element attribute of submesh for 2D.
    // This does not support 2D.
-- 
2.43.0


From 278ceb43eb00cd38d33a59418e5e91d88e033d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:46 +0000
Subject: [PATCH 20/27] fix: free the mass blocks of ROMLinearElement

---
 src/rom_element_collection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rom_element_collection.cpp b/src/rom_element_collection.cpp
index 47ffa6d..54be8df 100644
--- a/src/rom_element_collection.cpp
+++ b/src/rom_element_collection.cpp
@@ -36,6 +36,7 @@ ROMLinearElement::ROMLinearElement(
 ROMLinearElement::~ROMLinearElement()
 {
    DeletePointers(comp);
+   DeletePointers(mass);
    for (int c = 0; c < bdr.Size(); c++)
    {
       DeletePointers((*bdr[c]));
-- 
2.43.0


From bb6e1c48b6531718ed32aa85e0ef88ce9357f301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:38 +0000
Subject: [PATCH 21/27] fix: release the string read from an HDF5 attribute

---
 src/hdf5_utils.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/hdf5_utils.cpp b/src/hdf5_utils.cpp
index 066f7c1..fb92a9e 100644
--- a/src/hdf5_utils.cpp
+++ b/src/hdf5_utils.cpp
@@ -57,20 +57,19 @@ void ReadAttribute(hid_t &source, std::string attribute, std::string &value)
    // hid_t attrType = hdf5_utils::GetNativeType(tmp);
    // status = H5Aread(attr, attrType, &tmp_str);
 
-   /*
-      For some reason H5Aread deletes tmp_str.
-      If tmp_str is not a pointer,
-      it leads to double-free at the end of this fuction.
-   */
-   std::string *tmp_str = new std::string;
-   status = H5Aread(attr, tmp, tmp_str);
+   // A variable-length string is read as a pointer to memory that HDF5 allocates.
+   char *tmp_str = NULL;
+   status = H5Aread(attr, tmp, &tmp_str);
+   assert(status >= 0);
+   assert(tmp_str);
+   value = tmp_str;
+   status = H5free_memory(tmp_str);
    assert(status >= 0);
 
    status = H5Aclose(attr);
    assert(status >= 0);
    status = H5Tclose(tmp);
    assert(status >= 0);
-   value = tmp_str->c_str();
 }
 
 void WriteAttribute(hid_t &dest, std::string attribute, const std::string &value)
-- 
2.43.0


From add3e346e0d7be0f2caad3d4f62112b682b4c32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:56 +0000
Subject: [PATCH 22/27] fix: free the transformed vertices in
 BuildPortDataFromInput

---
 src/component_topology_handler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/component_topology_handler.cpp b/src/component_topology_handler.cpp
index 0f1ca80..0d9eca4 100644
--- a/src/component_topology_handler.cpp
+++ b/src/component_topology_handler.cpp
@@ -878,6 +878,7 @@ void ComponentTopologyHandler::BuildPortDataFromInput(const YAML::Node port_dict
          mfem_error("BuildPortDataFromInput: Cannot find the matching vertex!\n");
       }
    }  // for (int v1 = 0; v1 < vtx1.Size(); v1++)
+   DeletePointers(x2_trns);
 
    for (int b2 = 0; b2 < be2.Size(); b2++)
    {
-- 
2.43.0


From 4e1f167413deb1b0195caa5f26562b3208bd674d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:38 +0000
Subject: [PATCH 23/27] fix: accept empty index lists in the sub-matrix helpers

---
 src/linalg_utils.cpp | 57 +++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/src/linalg_utils.cpp b/src/linalg_utils.cpp
index 3c89265..7c83aa6 100644
--- a/src/linalg_utils.cpp
+++ b/src/linalg_utils.cpp
@@ -141,6 +141,7 @@ void AddToBlockMatrix(const Array<int> &ridx, const Array<int> &cidx, const Matr
    // assert(bmat.NumColBlocks() >= mats.ncols);
    assert(ridx.Size() == mats.nrows);
    assert(cidx.Size() == mats.ncols);
+   if ((ridx.Size() == 0) || (cidx.Size() == 0)) return;
    assert((ridx.Min() >= 0) && (ridx.Max() < bmat.NumRowBlocks()));
    assert((cidx.Min() >= 0) && (cidx.Max() < bmat.NumColBlocks()));
 
@@ -428,21 +429,21 @@ void MultSubMatrix(const DenseMatrix &mat, const Array<int> &rows, const Vector
    assert(x.Size() == ncol);
    y.SetSize(nrow);
 
-   const int rmin = rows.Min(), rmax = rows.Max();
-   assert((rmin >= 0) && (rmin < mat.NumRows()));
-   assert((rmax >= 0) && (rmax < mat.NumRows()));
+   if (nrow > 0)
+   {
+      const int rmin = rows.Min(), rmax = rows.Max();
+      assert((rmin >= 0) && (rmin < mat.NumRows()));
+      assert((rmax >= 0) && (rmax < mat.NumRows()));
+   }
 
    const double *d_mat = mat.Read();
    const double *d_x = x.Read();
    const int *d_rows = rows.Read();
    double *d_y = y.GetData();
 
-   double xc = d_x[0];
-   for (int r = 0; r < nrow; r++)
-      d_y[r] = d_mat[d_rows[r]] * xc;
-   d_mat += height;
-
-   for (int c = 1; c < ncol; c++)
+   double xc;
+   y = 0.0;
+   for (int c = 0; c < ncol; c++)
    {
       xc = d_x[c];
       for (int r = 0; r < nrow; r++)
@@ -457,9 +458,12 @@ void AddMultTransposeSubMatrix(const DenseMatrix &mat, const Array<int> &rows, c
    assert(x.Size() == nrow);
    assert(y.Size() == ncol);
 
-   const int rmin = rows.Min(), rmax = rows.Max();
-   assert((rmin >= 0) && (rmin < mat.NumRows()));
-   assert((rmax >= 0) && (rmax < mat.NumRows()));
+   if (nrow > 0)
+   {
+      const int rmin = rows.Min(), rmax = rows.Max();
+      assert((rmin >= 0) && (rmin < mat.NumRows()));
+      assert((rmax >= 0) && (rmax < mat.NumRows()));
+   }
 
    const double *d_mat = mat.Read();
    const double *d_x = x.Read();
@@ -483,9 +487,12 @@ void MultTransposeSubMatrix(const DenseMatrix &mat, const Array<int> &rows, cons
    assert(x.Size() == nrow);
    assert(y.Size() == ncol);
 
-   const int rmin = rows.Min(), rmax = rows.Max();
-   assert((rmin >= 0) && (rmin < mat.NumRows()));
-   assert((rmax >= 0) && (rmax < mat.NumRows()));
+   if (nrow > 0)
+   {
+      const int rmin = rows.Min(), rmax = rows.Max();
+      assert((rmin >= 0) && (rmin < mat.NumRows()));
+      assert((rmax >= 0) && (rmax < mat.NumRows()));
+   }
 
    const double *d_mat = mat.Read();
    const double *d_x = x.Read();
@@ -514,12 +521,16 @@ void AddSubMatrixRtAP(const DenseMatrix& R, const Array<int> &Rrows,
    assert(A.NumRows() == Arow);
    assert(A.NumCols() == Acol);
 
-   {  // row index checks.
-      int rmin = Rrows.Min(), rmax = Rrows.Max();
+   // row index checks.
+   if (Arow > 0)
+   {
+      const int rmin = Rrows.Min(), rmax = Rrows.Max();
       assert((rmin >= 0) && (rmin < R.NumRows()));
       assert((rmax >= 0) && (rmax < R.NumRows()));
-      rmin = Prows.Min();
-      rmax = Prows.Max();
+   }
+   if (Acol > 0)
+   {
+      const int rmin = Prows.Min(), rmax = Prows.Max();
       assert((rmin >= 0) && (rmin < P.NumRows()));
       assert((rmax >= 0) && (rmax < P.NumRows()));
    }
@@ -536,12 +547,8 @@ void AddSubMatrixRtAP(const DenseMatrix& R, const Array<int> &Rrows,
       const double *d_A = A.Read();
 
       // step 1: tmp = A * P[:, j]
-      pr = d_P[Prows[0]];
-      for (int r = 0; r < Arow; r++)
-         d_tmp[r] = d_A[r] * pr;
-      d_A += Arow;
-
-      for (int c = 1; c < Acol; c++)
+      tmp = 0.0;
+      for (int c = 0; c < Acol; c++)
       {
          pr = d_P[Prows[c]];
          for (int r = 0; r < Arow; r++)
-- 
2.43.0


From b2f0be8570611530a1f22d96cacf11dda6c8bd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:38 +0000
Subject: [PATCH 24/27] fix: check the sizes given to TensorMult and
 TensorAddMultOnJ

---
 src/linalg_utils.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/linalg_utils.cpp b/src/linalg_utils.cpp
index 7c83aa6..09b1367 100644
--- a/src/linalg_utils.cpp
+++ b/src/linalg_utils.cpp
@@ -635,6 +635,10 @@ void TensorAddScaledContract(const DenseTensor &tensor, const double w, const Ve
 
 void TensorMult(const DenseTensor &tensor, const Vector &x, DenseMatrix &M)
 {
+   assert(x.Size() == tensor.SizeK());
+   assert(M.NumRows() == tensor.SizeI());
+   assert(M.NumCols() == tensor.SizeJ());
+
    M = 0.0;
    
    const double *tdata = tensor.HostRead();
@@ -654,6 +658,10 @@ void TensorMult(const DenseTensor &tensor, const Vector &x, DenseMatrix &M)
 
 void TensorAddMultOnJ(const DenseTensor &tensor, const Vector &x, DenseMatrix &M)
 {  
+   assert(x.Size() == tensor.SizeJ());
+   assert(M.NumRows() == tensor.SizeI());
+   assert(M.NumCols() == tensor.SizeK());
+
    const double *tdata;
    const double *dx;
    double *dM = M.HostReadWrite();
-- 
2.43.0


From 8176d7d9389d6a977f62c9b6ec828fab6f31c101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:38 +0000
Subject: [PATCH 25/27] fix: check the column in GetBasisElement

---
 src/hyperreduction_integ.cpp | 1 +
 src/linalg_utils.cpp         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/hyperreduction_integ.cpp b/src/hyperreduction_integ.cpp
index b9b4ae2..2626c9d 100644
--- a/src/hyperreduction_integ.cpp
+++ b/src/hyperreduction_integ.cpp
@@ -178,6 +178,7 @@ void HyperReductionIntegrator::AddAssembleGrad_Fast(
 void HyperReductionIntegrator::GetBasisElement(
    DenseMatrix &basis, const int col, const Array<int> vdofs, Vector &basis_el, DofTransformation *dof_trans)
 {
+   assert((col >= 0) && (col < basis.NumCols()));
    Vector tmp;
    basis.GetColumnReference(col, tmp);
    tmp.GetSubVector(vdofs, basis_el);   // this involves a copy.
diff --git a/src/linalg_utils.cpp b/src/linalg_utils.cpp
index 09b1367..bc1f028 100644
--- a/src/linalg_utils.cpp
+++ b/src/linalg_utils.cpp
@@ -963,6 +963,7 @@ void CGOptimizer::Mult(const Vector &rhs, Vector &sol) const
 void GetBasisElement(
    const DenseMatrix &basis, const int col, const Array<int> vdofs, Vector &basis_el, DofTransformation *dof_trans)
 {
+   assert((col >= 0) && (col < basis.NumCols()));
    Vector tmp;
    const_cast<DenseMatrix &>(basis).GetColumnReference(col, tmp);
    tmp.GetSubVector(vdofs, basis_el);   // this involves a copy.
-- 
2.43.0


From c17ea6cc4ea262e321d7358b5e00320106612b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:38 +0000
Subject: [PATCH 26/27] fix: check the vector lengths in the block smoothers

---
 src/block_smoother.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/block_smoother.cpp b/src/block_smoother.cpp
index cfb0bec..660e18e 100644
--- a/src/block_smoother.cpp
+++ b/src/block_smoother.cpp
@@ -88,6 +88,8 @@ void BlockGSSmoother::Mult(const Vector &x, Vector &y) const
 
 void BlockGSSmoother::BlockGaussSeidelForw(const Vector &x, Vector &y) const
 {
+   assert((x.Size() == height) && (y.Size() == width));
+
    Vector xblockview, yblockview, tmp;
 
    for (int i = 0; i < num_row_blocks; i++)
@@ -129,6 +131,8 @@ void BlockGSSmoother::BlockGaussSeidelForw(const Vector &x, Vector &y) const
 
 void BlockGSSmoother::BlockGaussSeidelBack(const Vector &x, Vector &y) const
 {
+   assert((x.Size() == height) && (y.Size() == width));
+
    Vector xblockview, yblockview, tmp;
 
    for (int i = num_row_blocks-1; i >= 0; i--)
@@ -184,6 +188,8 @@ BlockDSmoother::BlockDSmoother(const BlockMatrix &a, int t, int it)
 /// Matrix vector multiplication with Jacobi smoother.
 void BlockDSmoother::Mult(const Vector &x, Vector &y) const
 {
+   assert((x.Size() == height) && (y.Size() == width));
+
    if (!iterative_mode && type == 0 && iterations == 1)
    {
       Vector xblockview, yblockview;
-- 
2.43.0


From 095781e72072378a19081a0a6ca90442a95f849b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:27 +0000
Subject: [PATCH 27/27] fix: compare the lengths of the stored sample lists

---
 src/hdf5_utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hdf5_utils.cpp b/src/hdf5_utils.cpp
index fb92a9e..e4dab9e 100644
--- a/src/hdf5_utils.cpp
+++ b/src/hdf5_utils.cpp
@@ -539,6 +539,8 @@ void ReadDataset(hid_t &source, std::string dataset, const IntegratorType type,
    hdf5_utils::ReadDataset(grp_id, eldset, el);
    hdf5_utils::ReadDataset(grp_id, "quad-pt", qp);
    hdf5_utils::ReadDataset(grp_id, "quad-wt", qw);
+   assert(qp.Size() == el.Size());
+   assert(qw.Size() == el.Size());
 
    errf = H5Gclose(grp_id);
    assert(errf >= 0);
-- 
2.43.0

