From c2370a05e1cc234211153424236dfc7c9d53ba1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 01/32] fix: permute volume region markers along with cells in
 UMesh::reorder_cells

---
 src/mesh/mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/mesh.cpp b/src/mesh/mesh.cpp
index 9ea44b5..284c760 100644
--- a/src/mesh/mesh.cpp
+++ b/src/mesh/mesh.cpp
@@ -88,11 +88,14 @@ void UMesh<scalar,ndim>::reorder_cells(const PetscInt *const permvec)
 	const amat::Array2d<fint> tempelems = inpoel;
 	const std::vector<int> tempnnode = nnode;
 	const std::vector<int> tempnfael = nfael;
+	const amat::Array2d<int> tempregions = vol_regions;
 
 	for(fint i = 0; i < nelem; i++)
 	{
 		for(int j = 0; j < inpoel.cols(); j++)
 			inpoel(i,j) = tempelems(permvec[i],j);
+		for(int j = 0; j < vol_regions.cols(); j++)
+			vol_regions(i,j) = tempregions(permvec[i],j);
 		nnode[i] = tempnnode[permvec[i]];
 		nfael[i] = tempnfael[permvec[i]];
 	}
-- 
2.43.0


From fb282a46dd9d414687fd37b08dfd4678a6ee43ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 02/32] fix: find inter-process faces whose points all lie on
 physical boundaries

A cut face was taken for a connectivity face only if one of its points was not on the subdomain's
physical boundary, so cut faces spanning the domain (or its corners) were lost.
---
 src/mesh/meshpartitioning.cpp | 47 +++++++----------------------------
 src/mesh/meshpartitioning.hpp | 12 +--------
 2 files changed, 10 insertions(+), 49 deletions(-)

diff --git a/src/mesh/meshpartitioning.cpp b/src/mesh/meshpartitioning.cpp
index 2ff91f2..23c1e6b 100644
--- a/src/mesh/meshpartitioning.cpp
+++ b/src/mesh/meshpartitioning.cpp
@@ -73,20 +73,16 @@ UMesh<freal,2> ReplicatedGlobalMeshPartitioner::restrictMeshToPartitions() const
 	 */
 	extractbfaces(pointGlob2Loc, lm);
 
-	/*! 5. Compute local esuel and mark elements that neighbor and points that lie on
-	 *     a physical boundary face
-	 */
+	//! 5. Compute local esuel
 	lm.compute_elementsSurroundingPoints();
 	lm.compute_elementsSurroundingElements();
-	const std::vector<bool> isPhyBounPoint = markLocalPhysicalBoundaryPoints(lm);
-	assert(isPhyBounPoint.size() == static_cast<size_t>(lm.npoin));
 
 	/*! 6. Use local esuel, the global esuel and local-to-global elem map 
 	 *     to build the connectivity face structure. Use the fact that ordering of faces within
 	 *     elements is not changed during restriction to assign global face indices.
 	 */
 	const std::vector<std::vector<EIndex>> connElemLocalFace
-		= getConnectivityFaceEIndices(lm, isPhyBounPoint);
+		= getConnectivityFaceEIndices(lm);
 
 	lm.nconnface = 0;
 	for(fint i = 0; i < lm.nelem; i++)
@@ -275,25 +271,9 @@ void ReplicatedGlobalMeshPartitioner::extractbfaces(const std::map<fint,fint>& p
 			lm.bface(iface,j) = tbfaces[iface][j];
 }
 
-std::vector<bool>
-ReplicatedGlobalMeshPartitioner::
-markLocalPhysicalBoundaryPoints(const UMesh<freal,2>& lm) const
-{
-	std::vector<bool> isBounPoin(lm.npoin,false);
-
-	for(fint iface = 0; iface < lm.nbface; iface++)
-	{
-		for(int inode = 0; inode < lm.nnofa; inode++) {
-			isBounPoin[lm.bface(iface,inode)] = true;
-		}
-	}
-	return isBounPoin;
-}
-
 std::vector<std::vector<EIndex>>
 ReplicatedGlobalMeshPartitioner::
-getConnectivityFaceEIndices(const UMesh<freal,2>& lm,
-                            const std::vector<bool>& isPhyBounPoint) const
+getConnectivityFaceEIndices(const UMesh<freal,2>& lm) const
 {
 	const int rank = get_mpi_rank(MPI_COMM_WORLD);
 
@@ -303,26 +283,17 @@ getConnectivityFaceEIndices(const UMesh<freal,2>& lm,
 
 	for(fint iel = 0; iel < lm.nelem; iel++)
 	{
-		// Check whether face points are physical boundary points to identify connectivity faces
+		/* A face with no neighbor in this subdomain is a connectivity face if and only if
+		 * it is an interior face of the global mesh. Looking at the points of the face is not
+		 * enough, since all of them can lie on physical boundaries.
+		 */
 		for(EIndex iface = 0; iface < lm.nfael[iel]; iface++)
 		{
 			if(lm.esuel(iel,iface) == -1)
 			{
-				bool isconnface = false;
-				/* Get subdomain index of the points on this face.
-				 * If at least one point is not on a physical boundary, this is a connectivity face.
-				 */
-				for(FIndex inode = 0; inode < lm.nnofa; inode++)
-				{
-					const fint locpoint = lm.inpoel(iel,lm.getNodeEIndex(iel,iface,inode));
-					if(!isPhyBounPoint[locpoint]) {
-						isconnface = true;
-						break;
-					}
-				}
-				if(isconnface) {
+				const fint globnbd = gm.gesuel(lm.globalElemIndex[iel],iface);
+				if(globnbd >= 0 && globnbd < gm.gnelem())
 					connElemLocalFace[iel].push_back(iface);
-				}
 			}
 		}
 	}
diff --git a/src/mesh/meshpartitioning.hpp b/src/mesh/meshpartitioning.hpp
index 999c42d..d519783 100644
--- a/src/mesh/meshpartitioning.hpp
+++ b/src/mesh/meshpartitioning.hpp
@@ -59,20 +59,10 @@ protected:
 	 */
 	void extractbfaces(const std::map<fint,fint>& pointGlobal2Local, UMesh<freal,NDIM>& lm) const;
 
-	/// Marks points of this subdomain which are adjacent to physical boundary faces
-	/** As a by-product, also computes the number of physical boundary points in the local mesh in
-	 * nbpoin.
-	 * \return The vector of point marks
-	 */
-	std::vector<bool> markLocalPhysicalBoundaryPoints(const UMesh<freal,NDIM>& lm) const;
-
 	/// Returns a list of containing, for each local element, face E-indices that are connectivity
 	///  faces, if any
-	/** \param[in] isPhyBounPoint For each local point, whether or not it lies on a physical boundary
-	 */
 	std::vector<std::vector<EIndex>>
-	getConnectivityFaceEIndices(const UMesh<freal,NDIM>& lm,
-	                            const std::vector<bool>& isPhyBounPoint) const;
+	getConnectivityFaceEIndices(const UMesh<freal,NDIM>& lm) const;
 
 	/// The global mesh to partition
 	const UMesh<freal,NDIM>& gm;
-- 
2.43.0


From 9d73db6034d6ec8234344146e10209004440b088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 03/32] fix: initialize the Scotch graph before building it

SCOTCH_graphBuild reads the graph structure, which SCOTCH_graphAlloc leaves uninitialized; this crashed
the Scotch partitioner depending on what the memory held.
---
 src/mesh/meshpartitioning.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesh/meshpartitioning.cpp b/src/mesh/meshpartitioning.cpp
index 23c1e6b..f8946c9 100644
--- a/src/mesh/meshpartitioning.cpp
+++ b/src/mesh/meshpartitioning.cpp
@@ -410,8 +410,10 @@ void ScotchRGMPartitioner::compute_partition()
 	if(rank == 0) {
 		printf(" Using Scotch to compute a partition..\n");
 		SCOTCH_Graph *sgraph = SCOTCH_graphAlloc();
+		int ierr = SCOTCH_graphInit(sgraph);
+		fvens_throw(ierr, "Scotch could not initialize the global graph!");
 		const ListOfArrays<fint> loa = getCellAdjLists(gm);
-		int ierr = SCOTCH_graphBuild(sgraph, 0, gm.gnelem(), &loa.ptrs[0], NULL, NULL, NULL,
+		ierr = SCOTCH_graphBuild(sgraph, 0, gm.gnelem(), &loa.ptrs[0], NULL, NULL, NULL,
 		                             loa.ptrs.back(), &loa.store[0], NULL);
 		fvens_throw(ierr, "Scotch could not build the global graph!");
 		ierr = SCOTCH_graphCheck(sgraph); fvens_throw(ierr, "Scotch graph is not consistent!");
-- 
2.43.0


From aaf5c1c1b4c473240dbcc46104e566439d811617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 04/32] fix: density derivative of the normal speed in the
 exact LLF Jacobian

---
 src/spatial/anumericalflux.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spatial/anumericalflux.cpp b/src/spatial/anumericalflux.cpp
index 834f93c..3249368 100644
--- a/src/spatial/anumericalflux.cpp
+++ b/src/spatial/anumericalflux.cpp
@@ -145,7 +145,7 @@ void LocalLaxFriedrichsFlux<scalar,j_real>::get_jacobian_2(const j_real *const u
 	j_real dedu[NVARS];
 
 	if(leftismax) {
-		dedu[0] = -fabs(vni/(ul[0]*ul[0])) + ctermi*g*(g-1)*( -ul[3]/(ul[0]*ul[0])
+		dedu[0] = -fabs(vni/ul[0]) + ctermi*g*(g-1)*( -ul[3]/(ul[0]*ul[0])
 				+ (ul[1]*ul[1]+ul[2]*ul[2])/(ul[0]*ul[0]*ul[0]) );
 		dedu[1] = (vni>0 ? n[0]/ul[0] : -n[0]/ul[0]) + ctermi*g*(g-1)*(-ul[1]/ul[0]);
 		dedu[2] = (vni>0 ? n[1]/ul[0] : -n[1]/ul[0]) + ctermi*g*(g-1)*(-ul[2]/ul[0]);
@@ -168,7 +168,7 @@ void LocalLaxFriedrichsFlux<scalar,j_real>::get_jacobian_2(const j_real *const u
 		for(int i = 0; i < NVARS; i++)
 			dedu[i] = 0;
 	} else {
-		dedu[0] = -fabs(vnj/(ur[0]*ur[0])) + ctermj*g*(g-1)*( -ur[3]/(ur[0]*ur[0])
+		dedu[0] = -fabs(vnj/ur[0]) + ctermj*g*(g-1)*( -ur[3]/(ur[0]*ur[0])
 				+ (ur[1]*ur[1]+ur[2]*ur[2])/(ur[0]*ur[0]*ur[0]) );
 		dedu[1] = (vnj>0 ? n[0]/ur[0] : -n[0]/ur[0]) + ctermj*g*(g-1)*(-ur[1]/ur[0]);
 		dedu[2] = (vnj>0 ? n[1]/ur[0] : -n[1]/ur[0]) + ctermj*g*(g-1)*(-ur[2]/ur[0]);
-- 
2.43.0


From 2df0404bbc2bcc10d6c625ddd3cd228b38e9d184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 05/32] fix: index the wall velocity of the general adiabatic
 wall from zero

---
 src/spatial/abc.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index 1a43313..f1c0d2b 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -316,7 +316,7 @@ void Adiabaticwall<scalar,j_real>::computeGhostState(const scalar *const ins, co
 {
 	gs[0] = ins[0];
 	for(int i= 1; i< NDIM+1; i++)
-		gs[i] =  2.0*ins[0]*wallvel[i] - ins[i];
+		gs[i] =  2.0*ins[0]*wallvel[i-1] - ins[i];
 	gs[NDIM+1] = ins[NDIM+1];
 }
 
@@ -333,9 +333,9 @@ void Adiabaticwall<scalar,j_real>::computeGhostStateAndJacobian(const j_real *co
 	dgs[0] = 1.0;
 
 	for(int i= 1; i< NDIM+1; i++) {
-		gs[i] =  2.0*ins[0]*wallvel[i] - ins[i];
+		gs[i] =  2.0*ins[0]*wallvel[i-1] - ins[i];
 
-		dgs[i*NVARS+0] = 2.0*wallvel[i];
+		dgs[i*NVARS+0] = 2.0*wallvel[i-1];
 		dgs[i*NVARS+i] = -1.0;
 	}
 
-- 
2.43.0


From 7b869bc5ffed90ff9b6ff610dc55421534b68f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 06/32] fix: Riemann invariant and flow direction of the
 subsonic inflow boundary

---
 src/spatial/abc.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index f1c0d2b..794fbb7 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -154,7 +154,7 @@ void InFlow<scalar,j_real>::computeGhostState(const scalar *const ins, const sca
 {
 	const scalar ci = phy.getSoundSpeedFromConserved(ins);
 	// Outgoing Riemann invariant
-	const scalar Rminus = dimDotProduct(&ins[1],&n[0])/ins[0] - ci/(2*phy.g - 1.0);
+	const scalar Rminus = dimDotProduct(&ins[1],&n[0])/ins[0] - 2.0*ci/(phy.g - 1.0);
 	// Square of stagnation speed of sound
 	const scalar co2 = ci*ci + (phy.g-1.0)/2.0 * dimDotProduct(&ins[1],&ins[1])/(ins[0]*ins[0]);
 
@@ -167,9 +167,9 @@ void InFlow<scalar,j_real>::computeGhostState(const scalar *const ins, const sca
 	gs[0] = phy.getDensityFromPressureTemperature(pg,tg);
 	const scalar vgmag = sqrt(2.0/(phy.g-1.0)*(co2 - cg*cg));
 
-	// Get velocity components of ghost state assuming it's (anti-)parallel to the face normal
+	// Get velocity components of ghost state assuming it's anti-parallel to the (outward) face normal
 	scalar vg[NDIM];
-	getComponentsCartesian<scalar>(vgmag, n, vg);
+	getComponentsCartesian<scalar>(-vgmag, n, vg);
 	for(int i = 0; i < NDIM; i++)
 		gs[i+1] = gs[0]*vg[i];
 	gs[NDIM+1] = phy.getEnergyFromPressure(pg,gs[0],vgmag*vgmag);
-- 
2.43.0


From dc304a00bfff8984cb0741dfdaef95c6675ac56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 07/32] fix: isothermal wall ghost state and Jacobian agree
 with computeGhostState

---
 src/spatial/abc.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index 794fbb7..3606e40 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -377,8 +377,9 @@ void Isothermalwall2D<scalar,j_real>::computeGhostStateAndJacobian(const j_real
 	for(int k = 0; k < NVARS*NVARS; k++)
 		dgs[k] = 0;
 
-	/// \todo Fix isothermal BC Jacobian
-	// FIXME: Wrong Jacobian
+	// temperature in the ghost cell
+	const j_real gtemp = 2.0*walltemperature - jphy.getTemperatureFromConserved(ins);
+
 	const j_real tangMomentum = tangvel * ins[0];
 	gs[0] = ins[0];
 	dgs[0] = 1.0;
@@ -392,19 +393,22 @@ void Isothermalwall2D<scalar,j_real>::computeGhostStateAndJacobian(const j_real
 	dgs[2*NVARS+2] = -1.0;
 
 	const j_real vmag2 = dimDotProduct(&gs[1],&gs[1])/(ins[0]*ins[0]);
-	gs[3] = jphy.getEnergyFromTemperature(walltemperature, ins[0], vmag2);
+	gs[3] = jphy.getEnergyFromTemperature(gtemp, ins[0], vmag2);
 
 	j_real dvmag2[NVARS]; // derivative of vmag2 w.r.t. ins
-	dvmag2[0] = -2.0*dimDotProduct(&gs[1],&gs[1])/(ins[0]*ins[0]*ins[0]);
+	dvmag2[0] = 2.0*(gs[1]*dgs[NVARS+0]+gs[2]*dgs[2*NVARS+0])/(ins[0]*ins[0])
+		- 2.0*dimDotProduct(&gs[1],&gs[1])/(ins[0]*ins[0]*ins[0]);
 	for(int i = 1; i < NDIM+1; i++)
-		dvmag2[i] = 1.0/(ins[0]*ins[0]) * gs[i] * (-1.0);
+		dvmag2[i] = 2.0/(ins[0]*ins[0]) * gs[i] * (-1.0);
 	dvmag2[NDIM+1] = 0;
 
-	// dummy dT for the next function call
+	// derivative of the ghost temperature
 	j_real dT[NVARS];
 	for(int i = 0; i < NVARS; i++) dT[i] = 0;
+	jphy.getJacobianTemperatureWrtConserved(ins, dT);
+	for(int i = 0; i < NVARS; i++) dT[i] = -dT[i];
 
-	jphy.getJacobianEnergyFromJacobiansTemperatureVmag2(walltemperature, ins[0], vmag2,
+	jphy.getJacobianEnergyFromJacobiansTemperatureVmag2(gtemp, ins[0], vmag2,
 	                                                    dT, dvmag2, &dgs[3*NVARS]);
 }
 
-- 
2.43.0


From 2489044217a6a5d269c7244dbcab3db1dffc6846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 08/32] fix: momentum derivative of the sound speed in the
 exact LLF Jacobian

---
 src/spatial/anumericalflux.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spatial/anumericalflux.cpp b/src/spatial/anumericalflux.cpp
index 3249368..1f7cf06 100644
--- a/src/spatial/anumericalflux.cpp
+++ b/src/spatial/anumericalflux.cpp
@@ -147,8 +147,8 @@ void LocalLaxFriedrichsFlux<scalar,j_real>::get_jacobian_2(const j_real *const u
 	if(leftismax) {
 		dedu[0] = -fabs(vni/ul[0]) + ctermi*g*(g-1)*( -ul[3]/(ul[0]*ul[0])
 				+ (ul[1]*ul[1]+ul[2]*ul[2])/(ul[0]*ul[0]*ul[0]) );
-		dedu[1] = (vni>0 ? n[0]/ul[0] : -n[0]/ul[0]) + ctermi*g*(g-1)*(-ul[1]/ul[0]);
-		dedu[2] = (vni>0 ? n[1]/ul[0] : -n[1]/ul[0]) + ctermi*g*(g-1)*(-ul[2]/ul[0]);
+		dedu[1] = (vni>0 ? n[0]/ul[0] : -n[0]/ul[0]) + ctermi*g*(g-1)*(-ul[1]/(ul[0]*ul[0]));
+		dedu[2] = (vni>0 ? n[1]/ul[0] : -n[1]/ul[0]) + ctermi*g*(g-1)*(-ul[2]/(ul[0]*ul[0]));
 		dedu[3] = ctermi*g*(g-1)/ul[0];
 	}
 	else {
@@ -170,8 +170,8 @@ void LocalLaxFriedrichsFlux<scalar,j_real>::get_jacobian_2(const j_real *const u
 	} else {
 		dedu[0] = -fabs(vnj/ur[0]) + ctermj*g*(g-1)*( -ur[3]/(ur[0]*ur[0])
 				+ (ur[1]*ur[1]+ur[2]*ur[2])/(ur[0]*ur[0]*ur[0]) );
-		dedu[1] = (vnj>0 ? n[0]/ur[0] : -n[0]/ur[0]) + ctermj*g*(g-1)*(-ur[1]/ur[0]);
-		dedu[2] = (vnj>0 ? n[1]/ur[0] : -n[1]/ur[0]) + ctermj*g*(g-1)*(-ur[2]/ur[0]);
+		dedu[1] = (vnj>0 ? n[0]/ur[0] : -n[0]/ur[0]) + ctermj*g*(g-1)*(-ur[1]/(ur[0]*ur[0]));
+		dedu[2] = (vnj>0 ? n[1]/ur[0] : -n[1]/ur[0]) + ctermj*g*(g-1)*(-ur[2]/(ur[0]*ur[0]));
 		dedu[3] = ctermj*g*(g-1)/ur[0];
 	}
 
-- 
2.43.0


From 576a4fec618040bce11a7ae91a5363927e6e69d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:16 +0000
Subject: [PATCH 09/32] fix: limiters take the boundary ghost state at physical
 boundary faces

---
 src/spatial/limitedlinearreconstruction.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/spatial/limitedlinearreconstruction.cpp b/src/spatial/limitedlinearreconstruction.cpp
index 4960f24..5de21ae 100644
--- a/src/spatial/limitedlinearreconstruction.cpp
+++ b/src/spatial/limitedlinearreconstruction.cpp
@@ -131,8 +131,11 @@ void BarthJespersenLimiter<scalar,nvars>::compute_face_values(const MVector<scal
 			scalar duimin=0, duimax=0;
 			for(int j = 0; j < m->gnfael(iel); j++)
 			{
-				const fint jel = m->gesuel(iel,j);
-				const scalar dui = u(jel,ivar)-u(iel,ivar);
+				const fint face = m->gelemface(iel,j);
+				// physical boundary ghost states are not stored in u
+				const bool isPhyBoun = face >= m->gPhyBFaceStart() && face < m->gPhyBFaceEnd();
+				const scalar uj = isPhyBoun ? ug(face-m->gPhyBFaceStart(),ivar) : u(m->gesuel(iel,j),ivar);
+				const scalar dui = uj-u(iel,ivar);
 				if(dui > duimax) duimax = dui;
 				if(dui < duimin) duimin = dui;
 			}
@@ -226,8 +229,11 @@ void VenkatakrishnanLimiter<scalar,nvars>
 			scalar duimin=0, duimax=0;
 			for(int j = 0; j < m->gnfael(iel); j++)
 			{
-				const fint jel = m->gesuel(iel,j);
-				const scalar dui = u(jel,ivar)-u(iel,ivar);
+				const fint face = m->gelemface(iel,j);
+				// physical boundary ghost states are not stored in u
+				const bool isPhyBoun = face >= m->gPhyBFaceStart() && face < m->gPhyBFaceEnd();
+				const scalar uj = isPhyBoun ? ug(face-m->gPhyBFaceStart(),ivar) : u(m->gesuel(iel,j),ivar);
+				const scalar dui = uj-u(iel,ivar);
 				if(dui > duimax) duimax = dui;
 				if(dui < duimin) duimin = dui;
 			}
-- 
2.43.0


From a20206e4ea936e067b24d53cff0cfd464ade1c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:50 +0000
Subject: [PATCH 10/32] fix: data race in Green-Gauss gradients of cells with
 several boundary faces

---
 src/spatial/agradientschemes.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/spatial/agradientschemes.cpp b/src/spatial/agradientschemes.cpp
index 8127070..337a124 100644
--- a/src/spatial/agradientschemes.cpp
+++ b/src/spatial/agradientschemes.cpp
@@ -113,7 +113,14 @@ void GreenGaussGradients<scalar,nvars>::compute_gradients(
 					* m->gfacemetric(iface,2);
 
 				for(int idim = 0; idim < NDIM; idim++)
+				{
+#ifdef USE_ADOLC
+#pragma omp critical
+#else
+#pragma omp atomic update
+#endif
 					grad[ielem](idim,ivar) += (ut * m->gfacemetric(iface,idim))*areainv1;
+				}
 			}
 		}
 
@@ -206,6 +213,11 @@ void GreenGaussGradients<scalar,nvars>::compute_gradients(
 
 				for(int idim = 0; idim < NDIM; idim++)
 				{
+#ifdef USE_ADOLC
+#pragma omp critical
+#else
+#pragma omp atomic update
+#endif
 					grad[ielem](idim,ivar) += (ut * m->gfacemetric(iface,idim))*areainv1;
 				}
 			}
-- 
2.43.0


From a944c1a4e4a5eaceda9a76218c2e235ef9bb74e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 11/32] fix: diffusion gradients on subdomains without physical
 boundary faces

---
 src/spatial/diffusion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spatial/diffusion.cpp b/src/spatial/diffusion.cpp
index 628d1bc..8b8fdd7 100644
--- a/src/spatial/diffusion.cpp
+++ b/src/spatial/diffusion.cpp
@@ -334,7 +334,8 @@ void DiffusionMA<nvars>::getGradients(const Vec uvec,
 		compute_boundary_state(iface, &u(lelem,0), &ug(iface,0));
 	}
 
-	gradcomp->compute_gradients(u, amat::Array2dView<freal>(&ug(0,0),m->gnbface(),nvars),
+	const freal *const ugp = m->gnbface() > 0 ? &ug(0,0) : nullptr;
+	gradcomp->compute_gradients(u, amat::Array2dView<freal>(ugp,m->gnbface(),nvars),
 	                            &grads[0](0,0));
 }
 
-- 
2.43.0


From e20cbe78cd325780ae209be105b1cb54ebd47698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:17 +0000
Subject: [PATCH 12/32] fix: preallocate system matrices of small and
 multiply-connected subdomains

---
 src/linalg/alinalg.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/linalg/alinalg.cpp b/src/linalg/alinalg.cpp
index 344fa4c..9744f13 100644
--- a/src/linalg/alinalg.cpp
+++ b/src/linalg/alinalg.cpp
@@ -1,6 +1,7 @@
 #include "alinalg.hpp"
 #include <iostream>
 #include <vector>
+#include <algorithm>
 #include <cstring>
 #include <limits>
 
@@ -49,12 +50,12 @@ StatusCode setJacobianPreallocation(const UMesh<freal,NDIM> *const m, Mat A)
 		std::vector<PetscInt> dnnz(m->gnelem());
 		for(fint iel = 0; iel < m->gnelem(); iel++)
 		{
-			dnnz[iel] = m->gnfael(iel)+1;
+			dnnz[iel] = std::min<PetscInt>(m->gnfael(iel)+1, m->gnelem());
 		}
 
 		std::vector<PetscInt> onnz(m->gnelem(),0);
 		for(fint iface = 0; iface < m->gnConnFace(); iface++)
-			onnz[m->gconnface(iface,0)] = 1;
+			onnz[m->gconnface(iface,0)]++;
 
 		ierr = MatSeqBAIJSetPreallocation(A, nvars, 0, &dnnz[0]); CHKERRQ(ierr);
 		ierr = MatMPIBAIJSetPreallocation(A, nvars, 0, &dnnz[0], 0, &onnz[0]); CHKERRQ(ierr);
@@ -66,7 +67,7 @@ StatusCode setJacobianPreallocation(const UMesh<freal,NDIM> *const m, Mat A)
 		for(fint iel = 0; iel < m->gnelem(); iel++)
 		{
 			for(int i = 0; i < nvars; i++) {
-				dnnz[iel*nvars+i] = (m->gnfael(iel)+1)*nvars;
+				dnnz[iel*nvars+i] = std::min<PetscInt>(m->gnfael(iel)+1, m->gnelem())*nvars;
 			}
 		}
 
@@ -74,7 +75,7 @@ StatusCode setJacobianPreallocation(const UMesh<freal,NDIM> *const m, Mat A)
 		for(fint iface = 0; iface < m->gnConnFace(); iface++)
 		{
 			for(int i = 0; i < nvars; i++)
-				onnz[m->gconnface(iface,0)*nvars+i] = nvars;
+				onnz[m->gconnface(iface,0)*nvars+i] += nvars;
 		}
 
 		ierr = MatSeqAIJSetPreallocation(A, 0, &dnnz[0]); CHKERRQ(ierr);
-- 
2.43.0


From 860e97be77a91f9632beed350bcbf344241e31b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:35 +0000
Subject: [PATCH 13/32] fix: Dirichlet ghost state dependence in the diffusion
 Jacobian at boundaries

---
 src/spatial/diffusion.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/spatial/diffusion.cpp b/src/spatial/diffusion.cpp
index 8b8fdd7..ccdb369 100644
--- a/src/spatial/diffusion.cpp
+++ b/src/spatial/diffusion.cpp
@@ -305,10 +305,15 @@ void DiffusionMA<nvars>
 		du[i*nvars+i] = 1.0;
 	}
 
+	// Jacobian of the ghost state w.r.t. the interior state - see compute_boundary_state
+	freal dug[nvars*nvars];
+	for(int i = 0; i < nvars*nvars; i++)
+		dug[i] = -du[i];
+
 	freal grad[NDIM][nvars], dgradl[NDIM][nvars][nvars], dgradr[NDIM][nvars][nvars];
 
 	// Compute the face gradient and its Jacobian; we don't actually need the gradient, however
-	getFaceGradientAndJacobian_thinLayer(&rc(lelem), &rcbp(ibpface), ul, ul, du, du,
+	getFaceGradientAndJacobian_thinLayer(&rc(lelem), &rcbp(ibpface), ul, ul, du, dug,
 	                                     grad, dgradl, dgradr);
 
 	L = Eigen::Matrix<freal,nvars,nvars,Eigen::RowMajor>::Zero();
@@ -316,7 +321,7 @@ void DiffusionMA<nvars>
 	{
 		// compute nu*(d(-grad u)/du_l . n) * l
 		for(int idim = 0; idim < NDIM; idim++)
-			L(ivar,ivar) += dgradl[idim][ivar][ivar]*m->gfacemetric(iface,idim);
+			L(ivar,ivar) += (dgradl[idim][ivar][ivar] + dgradr[idim][ivar][ivar])*m->gfacemetric(iface,idim);
 		L(ivar,ivar) *= (diffusivity*len);
 	}
 }
-- 
2.43.0


From d240e6bd7408cbc263cc86eaa2ad3d0909afa02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 14/32] fix: SU2 markers without faces do not swallow the next
 marker

---
 src/mesh/meshreaders.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mesh/meshreaders.cpp b/src/mesh/meshreaders.cpp
index 83a1484..c7d34cb 100644
--- a/src/mesh/meshreaders.cpp
+++ b/src/mesh/meshreaders.cpp
@@ -368,8 +368,9 @@ MeshData readSU2(const std::string mfile)
 				fin >> bfacs[ib][iface][inofa];
 		}
 
-		//clear newline, except the last one because it may not exist
-		if(ib < nbmarkers-1)
+		//clear newline, except the last one because it may not exist;
+		// with no faces, the line of the number of faces has already been read completely
+		if(ib < nbmarkers-1 && numfacs[ib] > 0)
 			std::getline(fin,dum);
 	}
 
-- 
2.43.0


From 56962997fd47fa582eeee614bc09a6e84299fb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 15/32] fix: pseudo-time solvers report convergence when the
 last permitted step converges, or the residual is zero

---
 src/ode/aodesolver.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index 9850248..12e7404 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -174,7 +174,7 @@ StatusCode SteadyForwardEulerSolver<nvars>::solve(Vec uvec)
 		writeConvergenceHistoryHeader(std::cout);
 
 
-	while(resi/initres > config.tol && step < config.maxiter)
+	while(resi > config.tol*initres && step < config.maxiter)
 	{
 		{
 			MutableGhostedVecHandler<PetscScalar> rh(rvec);
@@ -260,7 +260,7 @@ StatusCode SteadyForwardEulerSolver<nvars>::solve(Vec uvec)
 		writeStepToConvergenceHistory(convstep, std::cout);
 
 	tdata.converged = true;
-	if(step == config.maxiter) {
+	if(resi > config.tol*initres) {
 		tdata.converged = false;
 		if(mpirank == 0)
 			std::cout << "! SteadyForwardEulerSolver: solve(): Exceeded max iterations!\n";
@@ -416,7 +416,7 @@ StatusCode SteadyBackwardEulerSolver<nvars>::solve(Vec uvec)
 	if(mpirank == 0)
 		writeConvergenceHistoryHeader(std::cout);
 		
-	while(resi/initres > config.tol && step < config.maxiter)
+	while(resi > config.tol*initres && step < config.maxiter)
 	{
 		{
 			MutableGhostedVecHandler<PetscScalar> rh(rvec);
@@ -616,7 +616,7 @@ StatusCode SteadyBackwardEulerSolver<nvars>::solve(Vec uvec)
 	tdata.lin_cputime = linctime;
 
 	tdata.converged = false;
-	if(step < config.maxiter && (resi/initres <= config.tol))
+	if(resi <= config.tol*initres)
 		tdata.converged = true;
 	else if (step >= config.maxiter){
 		if(mpirank == 0) {
-- 
2.43.0


From b518b34cb09446d24ee9aedc604cfeba2c06ab9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 16/32] fix: stages of the TVD Runge-Kutta solver use the
 residual of the previous stage

---
 src/ode/aodesolver.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index 12e7404..e27109c 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -683,7 +683,8 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 	assert(locnelem == m->gnelem());
 
 	ierr = VecGetArray(uvec, &uarr); CHKERRQ(ierr);
-	Eigen::Map<MVector<freal>> u(uarr, locnelem, nvars);
+	// Stage solution - this is stored in uvec so that each stage's residual is computed from it
+	Eigen::Map<MVector<freal>> ustage(uarr, locnelem, nvars);
 	ierr = VecGetArray(rvec, &rarr); CHKERRQ(ierr);
 	Eigen::Map<MVector<freal>> residual(rarr, locnelem, nvars);
 
@@ -691,12 +692,12 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 	int step = 0;
 	freal time = 0;   //< Physical time elapsed
 
-	// Stage solution vector
-	MVector<freal> ustage(m->gnelem(),nvars);
+	// Solution at the beginning of a time step
+	MVector<freal> u(m->gnelem(),nvars);
 #pragma omp parallel for simd default(shared)
 	for(fint iel = 0; iel < m->gnelem(); iel++)
 		for(int ivar = 0; ivar < nvars; ivar++)
-			ustage(iel,ivar) = u(iel,ivar);
+			u(iel,ivar) = ustage(iel,ivar);
 	
 	struct timeval time1, time2;
 	gettimeofday(&time1, NULL);
-- 
2.43.0


From c69d3eef4514a11b1d8a16511af9658ce1911166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 17/32] fix: TVD Runge-Kutta solver in multi-process runs:
 exchange stage data and use the global time step

---
 src/ode/aodesolver.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index e27109c..ac15527 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -676,7 +676,7 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 	int mpirank;
 	MPI_Comm_rank(PETSC_COMM_WORLD, &mpirank);
 
-	PetscInt locnelem; PetscScalar *uarr; PetscScalar *rarr;
+	PetscInt locnelem; PetscScalar *uarr;
 	ierr = VecGetLocalSize(uvec, &locnelem); CHKERRQ(ierr);
 	assert(locnelem % nvars == 0);
 	locnelem /= nvars;
@@ -685,9 +685,6 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 	ierr = VecGetArray(uvec, &uarr); CHKERRQ(ierr);
 	// Stage solution - this is stored in uvec so that each stage's residual is computed from it
 	Eigen::Map<MVector<freal>> ustage(uarr, locnelem, nvars);
-	ierr = VecGetArray(rvec, &rarr); CHKERRQ(ierr);
-	Eigen::Map<MVector<freal>> residual(rarr, locnelem, nvars);
-
 
 	int step = 0;
 	freal time = 0;   //< Physical time elapsed
@@ -710,27 +707,38 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 
 		for(int istage = 0; istage < order; istage++)
 		{
+			{
+				MutableGhostedVecHandler<PetscScalar> rh(rvec);
+				PetscScalar *const rarr = rh.getArray();
+
 #pragma omp parallel for simd default(shared)
-			for(fint iel = 0; iel < m->gnelem(); iel++) {
-				for(int i = 0; i < nvars; i++)
-					residual(iel,i) = 0;
+				for(fint i = 0; i < (m->gnelem()+m->gnConnFace())*nvars; i++) {
+					rarr[i] = 0;
+				}
 			}
 
 			// update residual
 			ierr = space->compute_residual(uvec, rvec, true, dtmvec); CHKERRQ(ierr);
 
+			ierr = VecGhostUpdateBegin(rvec, ADD_VALUES, SCATTER_REVERSE); CHKERRQ(ierr);
+			ierr = VecGhostUpdateEnd(rvec, ADD_VALUES, SCATTER_REVERSE); CHKERRQ(ierr);
+
 			// update time step for the first stage of each time step
 			if(istage == 0)
 			{
 				const PetscScalar *dtm;
 				ierr = VecGetArrayRead(dtmvec, &dtm); CHKERRQ(ierr);
-				dtmin = *std::min_element(dtm, dtm+m->gnelem());
+				const freal locdtmin = *std::min_element(dtm, dtm+m->gnelem());
 				ierr = VecRestoreArrayRead(dtmvec, &dtm); CHKERRQ(ierr);
+				MPI_Allreduce(&locdtmin, &dtmin, 1, FVENS_MPI_REAL, MPI_MIN, PETSC_COMM_WORLD);
 			}
 
 			if(!std::isfinite(dtmin))
 				throw Numerical_error("TVDRK solver diverged - dtmin is Nan or inf!");
 
+			ConstGhostedVecHandler<PetscScalar> rh(rvec);
+			Eigen::Map<const MVector<freal>> residual(rh.getArray(), locnelem, nvars);
+
 #pragma omp parallel for simd default(shared)
 			for(fint iel = 0; iel < m->gnelem(); iel++)
 			{
@@ -741,6 +749,9 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 						          - tvdcoeffs(istage,2) * dtmin*cfl/m->garea(iel)*residual(iel,i);
 				}
 			}
+
+			ierr = VecGhostUpdateBegin(uvec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
+			ierr = VecGhostUpdateEnd(uvec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
 		}
 
 #pragma omp parallel for simd default(shared)
@@ -781,7 +792,6 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 	}
 
 	ierr = VecRestoreArray(uvec, &uarr); CHKERRQ(ierr);
-	ierr = VecRestoreArray(rvec, &rarr); CHKERRQ(ierr);
 	return ierr;
 }
 
-- 
2.43.0


From 0e78c8b78f047073642dc97f0e7ab009daf622e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 18/32] fix: TVD Runge-Kutta solver follows the sign convention
 of compute_residual

---
 src/ode/aodesolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index ac15527..81e9f29 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -746,7 +746,7 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 				{
 					ustage(iel,i) = tvdcoeffs(istage,0)*u(iel,i)
 						          + tvdcoeffs(istage,1)*ustage(iel,i)
-						          - tvdcoeffs(istage,2) * dtmin*cfl/m->garea(iel)*residual(iel,i);
+						          + tvdcoeffs(istage,2) * dtmin*cfl/m->garea(iel)*residual(iel,i);
 				}
 			}
 
-- 
2.43.0


From 75ee77434c12eab27a3b4a38cf07cdf6dad61d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 19/32] fix: the diffusion residual does not touch the
 time-step vector when time steps are not requested

The matrix-free Jacobian passes a null vector in that case, which crashed.
---
 src/spatial/diffusion.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spatial/diffusion.cpp b/src/spatial/diffusion.cpp
index ccdb369..91366b5 100644
--- a/src/spatial/diffusion.cpp
+++ b/src/spatial/diffusion.cpp
@@ -226,7 +226,10 @@ StatusCode DiffusionMA<nvars>::compute_residual(const Vec uvec, Vec rvec,
 	ierr = VecDestroy(&gradvec); CHKERRQ(ierr);
 
 	{
-		MutableVecHandler<freal> dtvh(timesteps);
+		// the time-step vector is not available when time steps are not requested
+		MutableVecHandler<freal> dtvh;
+		if(gettimesteps)
+			dtvh.setVec(timesteps);
 		freal *const dtm = dtvh.getArray();
 		MutableVecHandler<freal> rvh(rvec);
 		freal *const rarr = rvh.getArray();
-- 
2.43.0


From 9ca269dcb295f4e275fc6e14c911c7e002703aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 20/32] fix: reduce in place in mpi_all_reduce so that
 multi-process totals are global

---
 src/utilities/mpiutils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utilities/mpiutils.cpp b/src/utilities/mpiutils.cpp
index 8b4f7ad..db99027 100644
--- a/src/utilities/mpiutils.cpp
+++ b/src/utilities/mpiutils.cpp
@@ -4,6 +4,7 @@
  */
 
 #include "mpiutils.hpp"
+#include "aerrorhandling.hpp"
 #include <cstdlib>
 #include <cstdio>
 #include <sys/types.h>
@@ -14,7 +15,8 @@ namespace fvens {
 template <>
 void mpi_all_reduce(freal *const arr, const fint count, MPI_Op op, MPI_Comm comm)
 {
-	MPI_Allreduce(arr, arr, count, FVENS_MPI_REAL, op, comm);
+	const int ierr = MPI_Allreduce(MPI_IN_PLACE, arr, count, FVENS_MPI_REAL, op, comm);
+	mpi_throw(ierr, "Could not reduce");
 }
 
 void wait_for_debugger()
-- 
2.43.0


From 538eb2e5684e657f139210de9eae54edd27ccbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 21/32] fix: skin friction uses the viscosity model of the
 simulation

---
 src/spatial/flow_spatial.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spatial/flow_spatial.cpp b/src/spatial/flow_spatial.cpp
index c06719d..f4db9f2 100644
--- a/src/spatial/flow_spatial.cpp
+++ b/src/spatial/flow_spatial.cpp
@@ -223,7 +223,8 @@ FlowFV_base<scalar>::computeSurfaceData (const amat::Array2dView<scalar> u,
 			 */
 
 			// non-dim viscosity / Re_inf
-			const scalar muhat = physics.getViscosityCoeffFromConserved(urec);
+			const scalar muhat = pconfig.const_visc ? physics.getConstantViscosityCoeff()
+				: physics.getViscosityCoeffFromConserved(urec);
 
 			// velocity gradient tensor
 			scalar gradu[NDIM][NDIM];
-- 
2.43.0


From 9cff1867016bdf7e27715282cd9300c989833d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 22/32] fix: point values are area-weighted averages: count
 each cell's area once

---
 src/spatial/aoutput.cpp   | 6 +++---
 src/spatial/diffusion.cpp | 9 +++++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/spatial/aoutput.cpp b/src/spatial/aoutput.cpp
index 113abb9..66e006b 100644
--- a/src/spatial/aoutput.cpp
+++ b/src/spatial/aoutput.cpp
@@ -115,11 +115,11 @@ StatusCode FlowOutput::postprocess_point(const Vec uvec,
 	for(fint ielem = 0; ielem < m->gnelem(); ielem++)
 	{
 		for(int inode = 0; inode < m->gnnode(ielem); inode++)
+		{
 			for(int ivar = 0; ivar < NVARS; ivar++)
-			{
 				up(m->ginpoel(ielem,inode),ivar) += u(ielem,ivar)*m->garea(ielem);
-				areasum(m->ginpoel(ielem,inode)) += m->garea(ielem);
-			}
+			areasum(m->ginpoel(ielem,inode)) += m->garea(ielem);
+		}
 	}
 
 	for(fint ipoin = 0; ipoin < m->gnpoin(); ipoin++)
diff --git a/src/spatial/diffusion.cpp b/src/spatial/diffusion.cpp
index 91366b5..c1c1014 100644
--- a/src/spatial/diffusion.cpp
+++ b/src/spatial/diffusion.cpp
@@ -361,16 +361,17 @@ StatusCode scalar_postprocess_point(const UMesh<freal,NDIM> *const m, const Vec
 	StatusCode ierr = 0;
 	const PetscScalar* uarr;
 	ierr = VecGetArrayRead(uvec, &uarr); CHKERRQ(ierr);
-	Eigen::Map<const MVector<freal>> u(uarr, m->gnelem(), NVARS);
+	Eigen::Map<const Eigen::Matrix<freal,Eigen::Dynamic,nvars,
+		nvars == 1 ? Eigen::ColMajor : Eigen::RowMajor>> u(uarr, m->gnelem(), nvars);
 
 	for(fint ielem = 0; ielem < m->gnelem(); ielem++)
 	{
 		for(int inode = 0; inode < m->gnnode(ielem); inode++)
+		{
 			for(int ivar = 0; ivar < nvars; ivar++)
-			{
 				up(m->ginpoel(ielem,inode),ivar) += u(ielem,ivar)*m->garea(ielem);
-				areasum[m->ginpoel(ielem,inode)] += m->garea(ielem);
-			}
+			areasum[m->ginpoel(ielem,inode)] += m->garea(ielem);
+		}
 	}
 
 	for(fint ipoin = 0; ipoin < m->gnpoin(); ipoin++)
-- 
2.43.0


From 38c7ecd2475d18d666a37ce7ce8afea01567624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 23/32] fix: cumulative cell offsets in writeMeshToVtu for
 hybrid meshes

---
 src/spatial/aoutput.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/spatial/aoutput.cpp b/src/spatial/aoutput.cpp
index 66e006b..cb64714 100644
--- a/src/spatial/aoutput.cpp
+++ b/src/spatial/aoutput.cpp
@@ -586,8 +586,11 @@ void writeMeshToVtu(std::string fname, const fvens::UMesh<freal,NDIM>& m)
 	}
 	out << "\t\t\t</DataArray>\n";
 	out << "\t\t\t<DataArray type=\"UInt32\" Name=\"offsets\" Format=\"ascii\">\n";
-	for(int i = 0; i < m.gnelem(); i++)
-		out << "\t\t\t\t" << m.gnnode(i)*(i+1) << '\n';
+	int totalcells = 0;
+	for(int i = 0; i < m.gnelem(); i++) {
+		totalcells += m.gnnode(i);
+		out << "\t\t\t\t" << totalcells << '\n';
+	}
 	out << "\t\t\t</DataArray>\n";
 	out << "\t\t\t<DataArray type=\"Int32\" Name=\"types\" Format=\"ascii\">\n";
 	for(int i = 0; i < m.gnelem(); i++)
-- 
2.43.0


From 60f0cd75f48bb9e5596c6491110f61b806297350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 24/32] fix: functionals in run_output for markers with more
 faces than local cells, and without wall markers

---
 src/utilities/casesolvers.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/utilities/casesolvers.cpp b/src/utilities/casesolvers.cpp
index 65c8b9f..0572c2f 100644
--- a/src/utilities/casesolvers.cpp
+++ b/src/utilities/casesolvers.cpp
@@ -93,7 +93,7 @@ FlowSolutionFunctionals FlowCase::run_output(const bool surface_file_needed,
 
 	const FlowFV_base<freal> *const prob = createFlowSpatial(opts, m);
 
-	const freal h = 1.0 / ( std::pow((freal)m.gnelem(), 1.0/NDIM) );
+	const freal h = 1.0 / ( std::pow((freal)m.gnelemglobal(), 1.0/NDIM) );
 
 	try {
 		ierr = execute(prob, opts.lognres, u);
@@ -147,15 +147,16 @@ FlowSolutionFunctionals FlowCase::run_output(const bool surface_file_needed,
 			std::cout << "FlowCase: Files will not be written in multi-process runs.\n";
 	}
 	
-	MVector<freal> output; output.resize(m.gnelem(),NDIM+2);
+	MVector<freal> output; output.resize(m.gnbface(),NDIM+2);
 	std::vector<GradBlock_t<freal,NDIM,NVARS>> grad;
 	grad.resize(m.gnelem());
 	prob->getGradients(u, &grad[0]);
 
 	ConstVecHandler<freal> uh(u);
 	const amat::Array2dView<freal> ua(uh.getArray(), m.gnelem(), NVARS);
-	const std::tuple<freal,freal,freal> fnls 
-		{ prob->computeSurfaceData(ua, &grad[0], opts.lwalls[0], output)};
+	std::tuple<freal,freal,freal> fnls {0.0, 0.0, 0.0};
+	if(!opts.lwalls.empty())
+		fnls = prob->computeSurfaceData(ua, &grad[0], opts.lwalls[0], output);
 
 	delete prob;
 
-- 
2.43.0


From 601633a66fa92e239e2d058777829f173214d710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:09 +0000
Subject: [PATCH 25/32] fix: initialise the start-up flag and the limiter
 parameter

---
 src/utilities/controlparser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/utilities/controlparser.cpp b/src/utilities/controlparser.cpp
index b5a72f0..ef1a38e 100644
--- a/src/utilities/controlparser.cpp
+++ b/src/utilities/controlparser.cpp
@@ -38,6 +38,13 @@ static inline std::string get_upperCaseString(const pt::ptree& tree, const std::
 	return boost::to_upper_copy<std::string>(tree.get<std::string>(path));
 }
 
+/// Read an optional value; a value that is given but cannot be read is an error
+template <typename T> static inline
+T getOptional(const pt::ptree& tree, const std::string path, const T defaultvalue)
+{
+	return tree.get_child_optional(path) ? tree.get<T>(path) : defaultvalue;
+}
+
 /// Extract a vector of things from a string
 /** Assumes a space-separated list in the input string.
  */
@@ -74,6 +81,8 @@ FlowParserOptions parse_flow_controlfile(const int argc, const char *const argv[
 	opts.order2 = true;
 	opts.Reinf=0; opts.Tinf=0; opts.Pr=0; 
 	opts.time_integrator = "NONE";
+	opts.usestarter = 0;
+	opts.limiter_param = 0;
 
 	// Define string constants used as keywords in the control file
 
-- 
2.43.0


From 088fba61b00a600e20d0b6835c61931a6ded84e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 26/32] fix: reject values in control files that are not
 understood

---
 src/utilities/controlparser.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/utilities/controlparser.cpp b/src/utilities/controlparser.cpp
index ef1a38e..55d751c 100644
--- a/src/utilities/controlparser.cpp
+++ b/src/utilities/controlparser.cpp
@@ -57,6 +57,8 @@ std::vector<T> parseStringToVector(const std::string str)
 	while(ss >> elem) {
 		vec.push_back(elem);
 	}
+	if(!ss.eof())
+		throw std::invalid_argument("Control file: could not read the list '" + str + "'");
 	return vec;
 }
 
@@ -130,12 +132,14 @@ FlowParserOptions parse_flow_controlfile(const int argc, const char *const argv[
 	opts.gamma = infopts.get<freal>(c_flowconds+".adiabatic_index");
 	opts.alpha = PI/180.0*infopts.get<freal>(c_flowconds+".angle_of_attack");
 	opts.Minf = infopts.get<freal>(c_flowconds+".freestream_Mach_number");
+	if(opts.flowtype != "EULER" && opts.flowtype != "NAVIERSTOKES" && opts.flowtype != "RANS")
+		throw UnsupportedOptionError("flow_type " + opts.flowtype);
 	if(opts.flowtype == "NAVIERSTOKES" || opts.flowtype == "RANS") {
 		opts.viscsim = true;
 		opts.Tinf = infopts.get<freal>(c_flowconds+".freestream_temperature");
 		opts.Reinf = infopts.get<freal>(c_flowconds+".freestream_Reynolds_number");
 		opts.Pr = infopts.get<freal>(c_flowconds+".Prandtl_number");
-		opts.useconstvisc = infopts.get(c_flowconds+".use_constant_viscosity",false);
+		opts.useconstvisc = getOptional<bool>(infopts, c_flowconds+".use_constant_viscosity", false);
 		if(opts.flowtype == "RANS")
 			throw UnsupportedOptionError("flowtype RANS");
 	}
@@ -172,6 +176,8 @@ FlowParserOptions parse_flow_controlfile(const int argc, const char *const argv[
 
 	// Time stuff
 	opts.sim_type = get_upperCaseString(infopts, c_phy_time+".simulation_type");
+	if(opts.sim_type != "STEADY" && opts.sim_type != "UNSTEADY")
+		throw UnsupportedOptionError("simulation_type " + opts.sim_type);
 	if(opts.sim_type == "UNSTEADY")
 	{
 		opts.final_time = infopts.get<freal>(c_phy_time+".final_time");
@@ -192,6 +198,9 @@ FlowParserOptions parse_flow_controlfile(const int argc, const char *const argv[
 
 	opts.pseudotimetype = get_upperCaseString(infopts, c_pseudotime+".pseudotime_stepping_type");
 
+	if(opts.pseudotimetype != "IMPLICIT" && opts.pseudotimetype != "EXPLICIT")
+		throw UnsupportedOptionError("pseudotime_stepping_type " + opts.pseudotimetype);
+
 	opts.initcfl = infopts.get<freal>(c_pseudotime+"."+pt_main+".cfl_min");
 	opts.endcfl = infopts.get<freal>(c_pseudotime+"."+pt_main+".cfl_max");
 	opts.tolerance = infopts.get<freal>(c_pseudotime+"."+pt_main+".tolerance");
@@ -210,8 +219,8 @@ FlowParserOptions parse_flow_controlfile(const int argc, const char *const argv[
 			opts.invfluxjac = opts.invflux;
 
 		opts.nl_update_scheme = get_upperCaseString(infopts, c_pseudotime+"."+"nonlinear_update_scheme");
-		opts.min_nl_update = infopts.get(c_pseudotime+"."+"min_nonlinear_relaxation_factor",
-		                                           0.2);
+		opts.min_nl_update
+			= getOptional<freal>(infopts, c_pseudotime+"."+"min_nonlinear_relaxation_factor", 0.2);
 	}
 	
 	// check for some PETSc options
-- 
2.43.0


From 9003331dab7364bee8030dc15c2c72470b80db81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 27/32] fix: read unquoted lists of values in control files as
 documented

---
 src/utilities/controlparser.cpp | 44 +++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/utilities/controlparser.cpp b/src/utilities/controlparser.cpp
index 55d751c..9994cfc 100644
--- a/src/utilities/controlparser.cpp
+++ b/src/utilities/controlparser.cpp
@@ -62,6 +62,30 @@ std::vector<T> parseStringToVector(const std::string str)
 	return vec;
 }
 
+/// Read a list of values from a section
+/** The list may be given as one quoted string or as several unquoted values on one line. In the
+ * latter case, the property tree contains the values after the first one as entries following it.
+ * \return Space-separated list
+ */
+static std::string getListString(const pt::ptree& section, const std::string key)
+{
+	auto it = section.begin();
+	while(it != section.end() && it->first != key)
+		it++;
+	if(it == section.end())
+		throw pt::ptree_bad_path("No such node", pt::path(key));
+
+	std::string list = it->second.data();
+	for(it++; it != section.end(); it++) {
+		double val; char c;
+		std::stringstream ss(it->first);
+		if(!(ss >> val) || ss >> c)
+			break;
+		list += " " + it->first + " " + it->second.data();
+	}
+	return list;
+}
+
 /// Parse options related to boundary conditions
 static std::vector<FlowBCConfig> parse_BC_options(const pt::ptree& infopts,
                                                   const std::string bc_keyword);
@@ -152,14 +176,14 @@ FlowParserOptions parse_flow_controlfile(const int argc, const char *const argv[
 
 	opts.bcconf = parse_BC_options(infopts, c_bcs);
 
-	auto optlwalls = infopts.get_optional<std::string>(c_bcs+".listof_output_wall_boundaries");
-	if(optlwalls)
-		opts.lwalls = parseStringToVector<int>(*optlwalls);
+	if(infopts.get_child_optional(c_bcs+".listof_output_wall_boundaries"))
+		opts.lwalls = parseStringToVector<int>(getListString(infopts.get_child(c_bcs),
+		                                                     "listof_output_wall_boundaries"));
 	opts.num_out_walls = static_cast<int>(opts.lwalls.size());
 
-	auto optlothers= infopts.get_optional<std::string>(c_bcs+".listof_output_other_boundaries");
-	if(optlothers)
-		opts.lothers = parseStringToVector<int>(*optlothers);
+	if(infopts.get_child_optional(c_bcs+".listof_output_other_boundaries"))
+		opts.lothers = parseStringToVector<int>(getListString(infopts.get_child(c_bcs),
+		                                                      "listof_output_other_boundaries"));
 	opts.num_out_others = static_cast<int>(opts.lothers.size());
 
 	if(opts.num_out_others > 0 || opts.num_out_walls > 0) {
@@ -285,15 +309,15 @@ static std::vector<FlowBCConfig> parse_BC_options(const pt::ptree& infopts,
 			if(bconf.bc_type == ADIABATIC_WALL_BC  ||
 			   bconf.bc_type == ISOTHERMAL_WALL_BC ||
 			   bconf.bc_type == SUBSONIC_INFLOW_BC)   {
-				std::string bvals = infopts.get<std::string>(c_bcs+".bc"+std::to_string(ibc)+
-				                                             ".boundary_values");
+				const std::string bvals = getListString(infopts.get_child(c_bcs+".bc"+std::to_string(ibc)),
+				                                        "boundary_values");
 				bconf.bc_vals = parseStringToVector<freal>(bvals);
 			}
 
 			// array of options
 			if(bconf.bc_type == PERIODIC_BC) {
-				std::string bcopts = infopts.get<std::string>(c_bcs +".bc"+std::to_string(ibc)+
-				                                              ".options");
+				const std::string bcopts = getListString(infopts.get_child(c_bcs+".bc"+std::to_string(ibc)),
+				                                         "options");
 				bconf.bc_opts = parseStringToVector<int>(bcopts);
 			}
 
-- 
2.43.0


From 0ed75be6f882b483197814f6bcab48e0990b9537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 28/32] fix: reject boundary conditions with too few values

---
 src/spatial/abc.cpp             | 9 +++++----
 src/utilities/controlparser.cpp | 4 ++++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index 3606e40..9e3a7b3 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -482,17 +482,18 @@ std::map<int,const FlowBC<scalar>*> create_const_flowBCs(const std::vector<FlowB
 			bc = new InOutFlow<scalar>(itbc->bc_tag, physics, uinf);
 			break;
 		case SUBSONIC_INFLOW_BC:
-			bc = new InFlow<scalar>(itbc->bc_tag, physics, itbc->bc_vals[0], itbc->bc_vals[1]);
+			bc = new InFlow<scalar>(itbc->bc_tag, physics, itbc->bc_vals.at(0),
+			                         itbc->bc_vals.at(1));
 			break;
 		case EXTRAPOLATION_BC:
 			bc = new Extrapolation<scalar>(itbc->bc_tag, physics);
 			break;
 		case ADIABATIC_WALL_BC:
-			bc = new Adiabaticwall2D<scalar>(itbc->bc_tag, physics, itbc->bc_vals[0]);
+			bc = new Adiabaticwall2D<scalar>(itbc->bc_tag, physics, itbc->bc_vals.at(0));
 			break;
 		case ISOTHERMAL_WALL_BC:
-			bc = new Isothermalwall2D<scalar>(itbc->bc_tag, physics, itbc->bc_vals[0],
-			                                  itbc->bc_vals[1]);
+			bc = new Isothermalwall2D<scalar>(itbc->bc_tag, physics, itbc->bc_vals.at(0),
+			                                  itbc->bc_vals.at(1));
 			break;
 		default:
 			throw std::runtime_error("BC type not implemented yet!");
diff --git a/src/utilities/controlparser.cpp b/src/utilities/controlparser.cpp
index 9994cfc..c64dcd9 100644
--- a/src/utilities/controlparser.cpp
+++ b/src/utilities/controlparser.cpp
@@ -312,6 +312,8 @@ static std::vector<FlowBCConfig> parse_BC_options(const pt::ptree& infopts,
 				const std::string bvals = getListString(infopts.get_child(c_bcs+".bc"+std::to_string(ibc)),
 				                                        "boundary_values");
 				bconf.bc_vals = parseStringToVector<freal>(bvals);
+				if(bconf.bc_vals.size() < (bconf.bc_type == ADIABATIC_WALL_BC ? 1 : 2))
+					throw std::invalid_argument("Too few boundary values for " + bctype);
 			}
 
 			// array of options
@@ -319,6 +321,8 @@ static std::vector<FlowBCConfig> parse_BC_options(const pt::ptree& infopts,
 				const std::string bcopts = getListString(infopts.get_child(c_bcs+".bc"+std::to_string(ibc)),
 				                                         "options");
 				bconf.bc_opts = parseStringToVector<int>(bcopts);
+				if(bconf.bc_opts.size() < 2)
+					throw std::invalid_argument("Too few options for " + bctype);
 			}
 
 			bcvec.push_back(bconf);
-- 
2.43.0


From 95ad4dcd44229baf5689d5c613814f896f7ec623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 29/32] fix: factories reject unknown scheme names

---
 src/spatial/flow_spatial.cpp |  4 +++-
 src/utilities/afactory.cpp   | 12 ++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/spatial/flow_spatial.cpp b/src/spatial/flow_spatial.cpp
index f4db9f2..7f6770a 100644
--- a/src/spatial/flow_spatial.cpp
+++ b/src/spatial/flow_spatial.cpp
@@ -318,7 +318,9 @@ FlowFV<scalar,secondOrderRequested,constVisc>::FlowFV(const UMesh<scalar,NDIM> *
 	  uface(*m),
 	  gradvec{NULL},
 	  jphy(pconfig.gamma, pconfig.Minf, pconfig.Tinf, pconfig.Reinf, pconfig.Pr),
-	  jiflux {create_const_inviscidflux<scalar>(nconfig.conv_numflux_jac, &jphy)}
+	  // no Jacobian flux is specified for explicit solvers
+	  jiflux {nconfig.conv_numflux_jac.empty() ? nullptr
+	      : create_const_inviscidflux<scalar>(nconfig.conv_numflux_jac, &jphy)}
 {
 #ifdef DEBUG
 	const int mpirank = get_mpi_rank(PETSC_COMM_WORLD);
diff --git a/src/utilities/afactory.cpp b/src/utilities/afactory.cpp
index a6986e7..dfa55d6 100644
--- a/src/utilities/afactory.cpp
+++ b/src/utilities/afactory.cpp
@@ -24,6 +24,7 @@
 #include "spatial/limitedlinearreconstruction.hpp"
 #include "spatial/musclreconstruction.hpp"
 #include "mpiutils.hpp"
+#include "aerrorhandling.hpp"
 
 namespace fvens {
 
@@ -77,8 +78,7 @@ InviscidFlux<scalar>* create_mutable_inviscidflux(
 			std::cout << " InviscidFluxFactory: Using AUSM+ fluxes." << std::endl;
 	}
 	else
-		if(mpirank == 0)
-			std::cout << " InviscidFluxFactory: ! Flux scheme not available!" << std::endl;
+		throw UnsupportedOptionError("Inviscid flux " + type);
 
 	return inviflux;
 }
@@ -120,6 +120,8 @@ GradientScheme<scalar,nvars>* create_mutable_gradientscheme(const std::string& t
 		if(mpirank == 0)
 			std::cout << " GradientSchemeFactory: Green-Gauss gradients will be used.\n";
 	}
+	else if(type != "NONE")
+		throw UnsupportedOptionError("Gradient scheme " + type);
 	else {
 		gradcomp = new ZeroGradients<scalar,nvars>(m, rc, rcbp);
 		if(mpirank == 0)
@@ -205,10 +207,8 @@ SolutionReconstruction<scalar,nvars>* create_mutable_reconstruction(const std::s
 		if(mpirank == 0)
 			std::cout << " ReconstructionFactory: Venkatakrishnan linear reconstruction selected.\n";
 	}
-	else {
-		if(mpirank == 0)
-			std::cout << " !ReconstructionFactory: Invalid reconstruction!!\n";
-	}
+	else
+		throw UnsupportedOptionError("Reconstruction " + type);
 
 	return reconst;
 }
-- 
2.43.0


From 4e7ed58cc6478a9cee98fb63e84f19951a1c2d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 30/32] fix: string options may have the stated maximum length

---
 src/utilities/aoptionparser.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utilities/aoptionparser.cpp b/src/utilities/aoptionparser.cpp
index c2b586b..020f753 100644
--- a/src/utilities/aoptionparser.cpp
+++ b/src/utilities/aoptionparser.cpp
@@ -9,6 +9,7 @@
 #include "mpiutils.hpp"
 #include <iostream>
 #include <cstdlib>
+#include <vector>
 #include <boost/program_options/cmdline.hpp>
 #include <boost/program_options/parsers.hpp>
 #include <petscsys.h>
@@ -107,15 +108,14 @@ std::string parsePetscCmd_string(const std::string optionname, const size_t p_st
 {
 	StatusCode ierr = 0;
 	PetscBool set = PETSC_FALSE;
-	char* tt = new char[p_strlen+1];
-	ierr = PetscOptionsGetString(NULL, NULL, optionname.data(), tt, p_strlen, &set);
+	// one more for the terminating null character
+	std::vector<char> tt(p_strlen+1);
+	ierr = PetscOptionsGetString(NULL, NULL, optionname.data(), &tt[0], tt.size(), &set);
 	petsc_throw(ierr, std::string("Could not get string ") + std::string(optionname));
 	if(!set) {
 		throw InputNotGivenError(std::string("String ") + optionname + std::string(" not set"));
 	}
-	const std::string stropt = tt;
-	delete [] tt;
-	return stropt;
+	return std::string(&tt[0]);
 }
 
 /** Ideally, we would have single function template for int and real, but for that we need
-- 
2.43.0


From d77b99c2577ad6b6ae758cc88ba72e9322caed0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:42 +0000
Subject: [PATCH 31/32] fix: comparing meshes of different sizes or cell types

compareMeshes read past the end of the smaller mesh, and stopped at the
first cell with another number of vertices without reporting that faces
per cell and connectivity differ.
---
 src/mesh/ameshutils.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/mesh/ameshutils.cpp b/src/mesh/ameshutils.cpp
index d8fc58e..093c444 100644
--- a/src/mesh/ameshutils.cpp
+++ b/src/mesh/ameshutils.cpp
@@ -207,14 +207,14 @@ std::array<bool,8> compareMeshes(const UMesh<freal,NDIM>& m1, const UMesh<freal,
 	isequal[6] = true;
 	isequal[7] = true;
 
-	for(fint i = 0; i < m1.gnelem(); i++) {
+	// Only what both meshes have can be compared entry by entry; the counts above report the rest
+	for(fint i = 0; i < std::min(m1.gnelem(), m2.gnelem()); i++) {
+		if(m1.gnfael(i) != m2.gnfael(i))
+			isequal[4] = false;
 		if(m1.gnnode(i) != m2.gnnode(i)) {
 			isequal[3] = false;
-			break;
-		}
-		if(m1.gnfael(i) != m2.gnfael(i)) {
-			isequal[4] = false;
-			break;
+			isequal[5] = false;
+			continue;
 		}
 		for(int j = 0; j < m1.gnnode(i); j++) {
 			if(m1.ginpoel(i,j) != m2.ginpoel(i,j)) {
@@ -223,7 +223,7 @@ std::array<bool,8> compareMeshes(const UMesh<freal,NDIM>& m1, const UMesh<freal,
 			}
 		}
 	}
-	for(fint i = 0; i < m1.gnpoin(); i++) {
+	for(fint i = 0; i < std::min(m1.gnpoin(), m2.gnpoin()); i++) {
 		for(int j = 0; j < NDIM; j++)
 			if(std::abs(m1.gcoords(i,j)-m2.gcoords(i,j)) > std::numeric_limits<freal>::epsilon())
 			{
@@ -232,8 +232,10 @@ std::array<bool,8> compareMeshes(const UMesh<freal,NDIM>& m1, const UMesh<freal,
 			}
 	}
 	static_assert(NDIM==2, "Only 2D is currently supported!");  // change the hard-coded "2" below before removing this line
-	for(fint i = 0; i < m1.gnbface(); i++)
-		for(int j = 0; j < 2 +m1.gnbtag(); j++)
+	if(m1.gnbtag() != m2.gnbtag())
+		isequal[6] = false;
+	for(fint i = 0; i < std::min(m1.gnbface(), m2.gnbface()); i++)
+		for(int j = 0; j < 2 + std::min(m1.gnbtag(), m2.gnbtag()); j++)
 			if(m1.gbface(i,j) != m2.gbface(i,j)) {
 				isequal[6] = false;
 				break;
-- 
2.43.0


From d8c613aa9bb92f6fbbf02e4bdc7d756169d5d298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:42 +0000
Subject: [PATCH 32/32] fix: self-assignment of two-dimensional arrays

The guard was only compiled in with DEBUG; otherwise assigning an array
to itself read the freed entries.
---
 src/utilities/aarray2d.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/utilities/aarray2d.cpp b/src/utilities/aarray2d.cpp
index de3c41d..4b48884 100644
--- a/src/utilities/aarray2d.cpp
+++ b/src/utilities/aarray2d.cpp
@@ -44,9 +44,7 @@ Array2d<T>::Array2d(Array2d<T>&& other)
 template <typename T>
 Array2d<T>& Array2d<T>::operator=(const Array2d<T>& rhs)
 {
-#ifdef DEBUG
 	if(this==&rhs) return *this;		// check for self-assignment
-#endif
 	nrows = rhs.nrows;
 	ncols = rhs.ncols;
 	size = nrows*ncols;
-- 
2.43.0

