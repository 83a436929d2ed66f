From 1a510fcf27f48a3aec7cd1a7d73331474e66c58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:50 +0000
Subject: [PATCH 01/84] fix: BodyContainer::erase reads outside the container
 for an id that does not exist

---
 core/BodyContainer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/BodyContainer.cpp b/core/BodyContainer.cpp
index 3de4120..1563b30 100644
--- a/core/BodyContainer.cpp
+++ b/core/BodyContainer.cpp
@@ -39,7 +39,7 @@ Body::id_t BodyContainer::insertAtId(shared_ptr<Body> b, Body::id_t candidate){
 }
 
 bool BodyContainer::erase(Body::id_t id, bool eraseClumpMembers){//default is false (as before)
-	if(!body[id]) return false;
+	if(!exists(id)) return false;
 	const shared_ptr<Body>& b=Body::byId(id);
 	if ((b) and (b->isClumpMember())) {
 		const shared_ptr<Body> clumpBody=Body::byId(b->clumpId);
-- 
2.43.0


From bc35b30faf1e2d94265c0e07972a399ae4fe2c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:50 +0000
Subject: [PATCH 02/84] fix: BodyContainer::insertAtId reads the slot before
 checking that it exists

---
 core/BodyContainer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/BodyContainer.cpp b/core/BodyContainer.cpp
index 1563b30..2a72d84 100644
--- a/core/BodyContainer.cpp
+++ b/core/BodyContainer.cpp
@@ -28,7 +28,7 @@ Body::id_t BodyContainer::insert(shared_ptr<Body> b){
 }
 
 Body::id_t BodyContainer::insertAtId(shared_ptr<Body> b, Body::id_t candidate){
-	if(body[candidate] or candidate>=size()) {LOG_ERROR("invalid candidate id"); return -1;}
+	if(candidate<0 or (size_t)candidate>=size() or body[candidate]) {LOG_ERROR("invalid candidate id"); return -1;}
 	const shared_ptr<Scene>& scene=Omega::instance().getScene(); 
 	b->iterBorn=scene->iter;
 	b->timeBorn=scene->time;
-- 
2.43.0


From 0ef8688a6f9e46de5242422b80b7adec339cd8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:34 +0000
Subject: [PATCH 03/84] fix: InteractionContainer::found crashes for an erased
 body and for ids out of range

---
 core/InteractionContainer.hpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/core/InteractionContainer.hpp b/core/InteractionContainer.hpp
index 14843ed..49930ef 100644
--- a/core/InteractionContainer.hpp
+++ b/core/InteractionContainer.hpp
@@ -74,15 +74,10 @@ class InteractionContainer: public Serializable{
 		const shared_ptr<Interaction>& find(Body::id_t id1,Body::id_t id2);
 		inline bool found(const Body::id_t& id1,const Body::id_t& id2){
 			assert(bodies);
-			if(id2>=(Body::id_t)bodies->size() or (id1 == id2)) {
-				return false;
-			} else {
-				if (id1>id2) {
-					return (*bodies)[id2]->intrs.count(id1);
-				} else {
-					return (*bodies)[id1]->intrs.count(id2);
-				}
-			}
+			const Body::id_t& idMin=std::min(id1,id2), & idMax=std::max(id1,id2);
+			if(idMin<0 or idMax>=(Body::id_t)bodies->size() or idMin==idMax) return false;
+			const shared_ptr<Body>& b=(*bodies)[idMin];
+			return b and b->intrs.count(idMax);
 		}
 		// index access
 		shared_ptr<Interaction>& operator[](size_t id){return linIntrs[id];}
-- 
2.43.0


From 8658e1f0295df178b4a0071a41533066d62e9abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:34 +0000
Subject: [PATCH 04/84] fix: InteractionContainer::find reads outside the body
 container for a negative id

---
 core/InteractionContainer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/InteractionContainer.cpp b/core/InteractionContainer.cpp
index 97052b5..dd234d7 100644
--- a/core/InteractionContainer.cpp
+++ b/core/InteractionContainer.cpp
@@ -92,7 +92,7 @@ const shared_ptr<Interaction>& InteractionContainer::find(Body::id_t id1,Body::i
 	assert(bodies);
 	if (id1>id2) swap(id1,id2); 
 	// those checks could be perhaps asserts, but pyInteractionContainer has no access to the body container...
-	if(id2>=(Body::id_t)bodies->size()){ empty=shared_ptr<Interaction>(); return empty; }
+	if(id1<0 or id2>=(Body::id_t)bodies->size()){ empty=shared_ptr<Interaction>(); return empty; }
 	const shared_ptr<Body>& b1((*bodies)[id1]);
 	if(!b1) { empty=shared_ptr<Interaction>(); return empty; }
 	Body::MapId2IntrT::iterator I(b1->intrs.find(id2));
-- 
2.43.0


From dbe9851ffb0aab17ce75f685a8f44bc03952db12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:34 +0000
Subject: [PATCH 05/84] fix: InteractionContainer::eraseNonReal skips
 interactions and runs past the end

---
 core/InteractionContainer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/InteractionContainer.cpp b/core/InteractionContainer.cpp
index dd234d7..1f2c78c 100644
--- a/core/InteractionContainer.cpp
+++ b/core/InteractionContainer.cpp
@@ -120,7 +120,11 @@ void InteractionContainer::requestErase(Interaction* I){
 }
 
 void InteractionContainer::eraseNonReal(){
-	FOREACH(const shared_ptr<Interaction>& i, *this) if(!i->isReal()) this->erase(i->getId1(),i->getId2(),i->linIx);
+	// erase moves the last interaction to the freed position, hence no iterators here
+	for(size_t linPos=0; linPos<currSize;){
+		const shared_ptr<Interaction> i=linIntrs[linPos];
+		if(i->isReal() or !erase(i->getId1(),i->getId2(),linPos)) linPos++;
+	}
 }
 
 // compare interaction based on their first id
-- 
2.43.0


From 8f1442b5b29228a1565d7f1acc5f3217a608f3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:34 +0000
Subject: [PATCH 06/84] fix: InteractionContainer::erase leaves the interaction
 in the second body when the first one was deleted

---
 core/InteractionContainer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/InteractionContainer.cpp b/core/InteractionContainer.cpp
index 1f2c78c..a2eda17 100644
--- a/core/InteractionContainer.cpp
+++ b/core/InteractionContainer.cpp
@@ -58,8 +58,10 @@ bool InteractionContainer::erase(Body::id_t id1,Body::id_t id2, int linPos){
 	const shared_ptr<Body>& b1((*bodies)[id1]);
 	const shared_ptr<Body>& b2((*bodies)[id2]);
 	int linIx=-1;
-	if(!b1) linIx=linPos;
-	else {
+	if(!b1) {
+		linIx=linPos;
+		if(b2) b2->intrs.erase(id1);
+	} else {
 		Body::MapId2IntrT::iterator I(b1->intrs.find(id2));
 		if(I==b1->intrs.end()) linIx=linPos;
 		else {
-- 
2.43.0


From 5605a166fdf023d944ab97913781195be5620ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:04 +0000
Subject: [PATCH 07/84] fix: BodyContainer::insertAtId lets the new body
 inherit interactions of the deleted one

---
 core/BodyContainer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/BodyContainer.cpp b/core/BodyContainer.cpp
index 2a72d84..4c003fb 100644
--- a/core/BodyContainer.cpp
+++ b/core/BodyContainer.cpp
@@ -34,6 +34,12 @@ Body::id_t BodyContainer::insertAtId(shared_ptr<Body> b, Body::id_t candidate){
 	b->timeBorn=scene->time;
 	b->id=candidate;
 	scene->doSort = true; 
+	// interactions of the body which had this id before may still wait for deletion; they are not those of the new body
+	InteractionContainer& intrs=*scene->interactions;
+	for(size_t linPos=0; linPos<intrs.size();){
+		const shared_ptr<Interaction> I=intrs[linPos];
+		if((I->getId1()!=candidate and I->getId2()!=candidate) or !intrs.erase(I->getId1(),I->getId2(),linPos)) linPos++;
+	}
   body[b->id] = b; 
 	return b->id;
 }
-- 
2.43.0


From 74ed5eafa6803ba9db541362932607407cacdd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:04 +0000
Subject: [PATCH 08/84] fix: a deleted body inserted again keeps its old
 interactions and cannot collide with the same bodies

---
 core/BodyContainer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/BodyContainer.cpp b/core/BodyContainer.cpp
index 4c003fb..56571fa 100644
--- a/core/BodyContainer.cpp
+++ b/core/BodyContainer.cpp
@@ -75,6 +75,7 @@ bool BodyContainer::erase(Body::id_t id, bool eraseClumpMembers){//default is fa
 	for(auto it=b->intrs.begin(), end=b->intrs.end(); it!=end; ++it) {  //Iterate over all body's interactions
 		scene->interactions->requestErase((*it).second);
 	}
+	b->intrs.clear();//else a body inserted again would come with interactions which are not in the container
 	b->id=-1;//else it sits in the python scope without a chance to be inserted again
 	body[id].reset();
 	return true;
-- 
2.43.0


From 4bf9cc1a853624da95649c428f930acb5730176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:51 +0000
Subject: [PATCH 09/84] fix: contacts of a body inserted at the id of a deleted
 one are not detected by the collider

---
 core/BodyContainer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/BodyContainer.cpp b/core/BodyContainer.cpp
index 56571fa..73ba0aa 100644
--- a/core/BodyContainer.cpp
+++ b/core/BodyContainer.cpp
@@ -34,6 +34,7 @@ Body::id_t BodyContainer::insertAtId(shared_ptr<Body> b, Body::id_t candidate){
 	b->timeBorn=scene->time;
 	b->id=candidate;
 	scene->doSort = true; 
+	scene->interactions->dirty = true; // the collider holds bounds of the deleted body with the same id, no inversion would tell it about the new one
 	// interactions of the body which had this id before may still wait for deletion; they are not those of the new body
 	InteractionContainer& intrs=*scene->interactions;
 	for(size_t linPos=0; linPos<intrs.size();){
-- 
2.43.0


From c08516707dc310875168b25c6a3c5c9fb0b5ff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:59 +0000
Subject: [PATCH 10/84] fix: O.bodies.clump leaves clumps which lost their
 members with the old mass, or empty

---
 py/wrapper/yadeWrapper.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index fc42921..34f011a 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -105,14 +105,22 @@ class pyBodyContainer{
 		clumpBody->setBounded(false);
 		proxee->insert(clumpBody);
 		// add clump members to the clump
+		std::set<Body::id_t> oldClumps;
 		FOREACH(Body::id_t id, ids) {
 			if (Body::byId(id,scene)->isClumpMember()){	//Check, whether the body is clumpMember
+				oldClumps.insert(Body::byId(id,scene)->clumpId);
 				Clump::del(Body::byId(Body::byId(id,scene)->clumpId,scene),Body::byId(id,scene)); //If so, remove it from there
 			}
 		};
 		
 		FOREACH(Body::id_t id, ids) Clump::add(clumpBody,Body::byId(id,scene));
 		Clump::updateProperties(clumpBody, discretization);
+		// clumps which lost members: erase the empty ones, the other ones are lighter now
+		FOREACH(Body::id_t id, oldClumps) {
+			const shared_ptr<Body> old=Body::byId(id,scene);
+			if (YADE_PTR_CAST<Clump>(old->shape)->members.empty()) proxee->erase(id,false);
+			else Clump::updateProperties(old, discretization);
+		}
 		return clumpBody->getId();
 	}
 	py::tuple appendClump(vector<shared_ptr<Body> > bb, unsigned int discretization){
-- 
2.43.0


From 09e97a89f92f247837a938ab7f4e42df2371fe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:59 +0000
Subject: [PATCH 11/84] fix: O.bodies.addToClump stops half-way when one of the
 bodies is already in the clump

---
 py/wrapper/yadeWrapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index 34f011a..3daae2c 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -193,14 +193,14 @@ class pyBodyContainer{
 		FOREACH(Body::id_t bid, bids) {
 			shared_ptr<Body> bp = Body::byId(bid,scene);		// get body pointer
 			if (bp->isClump()){
-				if (bp == clp) {PyErr_Warn(PyExc_UserWarning,("Warning: Body "+boost::lexical_cast<string>(bid)+" and clump "+boost::lexical_cast<string>(cid)+" are the same bodies. Body was not added.").c_str()); return;}
+				if (bp == clp) {PyErr_Warn(PyExc_UserWarning,("Warning: Body "+boost::lexical_cast<string>(bid)+" and clump "+boost::lexical_cast<string>(cid)+" are the same bodies. Body was not added.").c_str()); continue;}
 				Clump::add(clp,bp);//add clump bid to clump cid
 				eraseList.push_back(bid);
 			}
 			else if (bp->isClumpMember()){
 				Body::id_t bpClumpId = bp->clumpId;
 				shared_ptr<Body> bpClumpPointer = Body::byId(bpClumpId,scene);
-				if (bpClumpPointer == clp) {PyErr_Warn(PyExc_UserWarning,("Warning: Body "+boost::lexical_cast<string>(bid)+" is already a clump member of clump "+boost::lexical_cast<string>(cid)+". Body was not added.").c_str()); return;} 
+				if (bpClumpPointer == clp) {PyErr_Warn(PyExc_UserWarning,("Warning: Body "+boost::lexical_cast<string>(bid)+" is already a clump member of clump "+boost::lexical_cast<string>(cid)+". Body was not added.").c_str()); continue;} 
 				Clump::add(clp,bpClumpPointer);//add clump bpClumpId to clump cid
 				eraseList.push_back(bpClumpId);
 			}
-- 
2.43.0


From 69eec275afdfcd31245ff902dbd38d8bde7d5fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:59 +0000
Subject: [PATCH 12/84] fix: O.bodies.releaseFromClump empties a clump of one
 member and throws

---
 py/wrapper/yadeWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index 3daae2c..df027d7 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -219,7 +219,7 @@ class pyBodyContainer{
 			if (cid == bpClumpId){
 				const shared_ptr<Clump>& clump=YADE_PTR_CAST<Clump>(clp->shape);
 				std::map<Body::id_t,Se3r>& members = clump->members;
-				if (members.size() == 2) {PyErr_Warn(PyExc_UserWarning,("Warning: Body "+boost::lexical_cast<string>(bid)+" not released from clump "+boost::lexical_cast<string>(cid)+", because number of clump members would get < 2!").c_str()); return;}
+				if (members.size() <= 2) {PyErr_Warn(PyExc_UserWarning,("Warning: Body "+boost::lexical_cast<string>(bid)+" not released from clump "+boost::lexical_cast<string>(cid)+", because number of clump members would get < 2!").c_str()); return;}
 				Clump::del(clp,bp);//release bid from cid
 				Clump::updateProperties(clp, discretization);
 			} else { PyErr_Warn(PyExc_UserWarning,("Warning: Body "+boost::lexical_cast<string>(bid)+" must be a clump member of clump "+boost::lexical_cast<string>(cid)+". Body was not released.").c_str()); return;}
-- 
2.43.0


From 8f8aeef8f8e4d9945cd772a20eb634f5151952f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:36 +0000
Subject: [PATCH 13/84] fix: orientation of a clump is not that of its
 principal axes when the eigenvectors are left-handed

---
 core/Clump.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/Clump.cpp b/core/Clump.cpp
index 8cb5699..5526673 100644
--- a/core/Clump.cpp
+++ b/core/Clump.cpp
@@ -216,7 +216,8 @@ void Clump::updateProperties(const shared_ptr<Body>& clumpBody, unsigned int dis
 	LOG_TRACE("Ic_orientG=\n"<<Ic_orientG);
 	Ic_orientG(1,0)=Ic_orientG(0,1); Ic_orientG(2,0)=Ic_orientG(0,2); Ic_orientG(2,1)=Ic_orientG(1,2); // symmetrize
 	Eigen::SelfAdjointEigenSolver<Matrix3r> decomposed(Ic_orientG);
-	const Matrix3r& R_g2c(decomposed.eigenvectors());
+	Matrix3r R_g2c(decomposed.eigenvectors());
+	if(R_g2c.determinant()<0) R_g2c.col(0)*=-1; // eigenvectors may form a left-handed basis, which is not a rotation
 	// has NaNs for identity matrix??
 	LOG_TRACE("R_g2c=\n"<<R_g2c);
 	// set quaternion from rotation matrix
-- 
2.43.0


From 5fabfe354170ae3f46c37982dd16615ceadf7830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:36 +0000
Subject: [PATCH 14/84] fix: inertia of rotated non-spherical clump members is
 rotated the wrong way

---
 core/Clump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/Clump.cpp b/core/Clump.cpp
index 5526673..3ab8249 100644
--- a/core/Clump.cpp
+++ b/core/Clump.cpp
@@ -204,7 +204,7 @@ void Clump::updateProperties(const shared_ptr<Body>& clumpBody, unsigned int dis
 				const Quaternionr& ori = subState->ori;
 				M += m;
 				Sg += m*pos;
-				Ig += inertiaTensorTranslate(inertiaTensorRotate(inertia.asDiagonal(),ori),m,-pos);
+				Ig += inertiaTensorTranslate(inertiaTensorRotate(inertia.asDiagonal(),ori.conjugate()),m,-pos);
 			}
 		}
 	}
-- 
2.43.0


From 8bc588775b44b036e6613a5c3cb11040381524de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:44 +0000
Subject: [PATCH 15/84] fix: members of a clump added to another clump end up
 as standalone bodies

---
 core/Clump.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/Clump.cpp b/core/Clump.cpp
index 3ab8249..88578ba 100644
--- a/core/Clump.cpp
+++ b/core/Clump.cpp
@@ -33,6 +33,7 @@ void Clump::add(const shared_ptr<Body>& clumpBody, const shared_ptr<Body>& subBo
 			clump->members[memberId]=Se3r();// meaningful values will be put in by Clump::updateProperties
 			//LOG_DEBUG("Added body #"<<memberId->id<<" to clump #"<<clumpBody->id);
 		}
+		subClump->members.clear(); // erasing the old clump must not release bodies which are members of the new one now
 		//LOG_DEBUG("Clump #"<<subClump->id<<" will be erased.");// see addToClump() in yadeWrapper.cpp
 	}
 	else{	// subBody must be a standalone!
-- 
2.43.0


From f5948efd8a19c3a478e780688f105419c2e21335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:37 +0000
Subject: [PATCH 16/84] fix: setting a permanent force discards those of bodies
 with much higher ids

---
 core/ForceContainerParallel.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/ForceContainerParallel.cpp b/core/ForceContainerParallel.cpp
index 8e3c510..f1ae141 100644
--- a/core/ForceContainerParallel.cpp
+++ b/core/ForceContainerParallel.cpp
@@ -25,11 +25,13 @@ void ForceContainer::resizePerm(size_t newSize) {
 #include <omp.h>
 void ForceContainer::ensureSize(Body::id_t id, int threadN) {
   assert(nThreads>omp_get_thread_num());
+  if (threadN<0) { // permanent forces are not per-thread; never shrink them
+    if (_permForce.size()<=(size_t)id) resizePerm(min((size_t)1.5*(id+100),(size_t)(id+2000)));
+    return;
+  }
   const Body::id_t idMaxTmp = max(id, _maxId[threadN]);
   _maxId[threadN] = 0;
-  if (threadN<0) {
-    resizePerm(min((size_t)1.5*(idMaxTmp+100),(size_t)(idMaxTmp+2000)));
-  } else if (sizeOfThreads[threadN]<=(size_t)idMaxTmp) {
+  if (sizeOfThreads[threadN]<=(size_t)idMaxTmp) {
     resize(min((size_t)1.5*(idMaxTmp+100),(size_t)(idMaxTmp+2000)),threadN);
   }
 }
-- 
2.43.0


From 947c8d2a7bc9c1b8cd31e36266aa5af19df73824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:37 +0000
Subject: [PATCH 17/84] fix: unsynchronized reading of forces runs past the end
 of permanent forces

---
 core/ForceContainerParallel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ForceContainerParallel.cpp b/core/ForceContainerParallel.cpp
index f1ae141..7695196 100644
--- a/core/ForceContainerParallel.cpp
+++ b/core/ForceContainerParallel.cpp
@@ -137,7 +137,7 @@ const Vector3r ForceContainer::getForceSingle(Body::id_t id) {
   for(int t=0; t<nThreads; t++) {
     ret+=((size_t)id<sizeOfThreads[t])?_forceData [t][id]:_zero;
   }
-  if (permForceUsed) ret+=_permForce[id];
+  if (permForceUsed && (size_t)id<_permForce.size()) ret+=_permForce[id];
   return ret;
 }
 
@@ -146,7 +146,7 @@ const Vector3r ForceContainer::getTorqueSingle(Body::id_t id) {
   for(int t=0; t<nThreads; t++) {
     ret+=((size_t)id<sizeOfThreads[t])?_torqueData[t][id]:_zero;
   }
-  if (permForceUsed) ret+=_permTorque[id];
+  if (permForceUsed && (size_t)id<_permTorque.size()) ret+=_permTorque[id];
   return ret;
 }
 
-- 
2.43.0


From 89c63e15437c1a7070394a9242851f5a01d04cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:27 +0000
Subject: [PATCH 18/84] fix: automatic cell flip may give a cell with zero
 volume, and flips cells which need no flip

---
 pkg/dem/Shop_01.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pkg/dem/Shop_01.cpp b/pkg/dem/Shop_01.cpp
index 31a79a0..09a0b38 100644
--- a/pkg/dem/Shop_01.cpp
+++ b/pkg/dem/Shop_01.cpp
@@ -54,13 +54,15 @@ Matrix3r Shop::flipCell(const Matrix3r& _flip){
 	Matrix3r& hSize = cell->hSize;
 	Matrix3i flip;
 	if(_flip==Matrix3r::Zero()){
-		bool hasNonzero=false;
+		// flip axes one after another, each with respect to those flipped already; the product of these elementary flips always has det=1
+		Matrix3r h=hSize; Matrix3i total=Matrix3i::Identity();
 		for(int i=0; i<3; i++) for(int j=0; j<3; j++) {
-			if(i==j){ flip(i,j)=0; continue; }
-			flip(i,j)=-floor(hSize.col(j).dot(hSize.col(i))/hSize.col(i).dot(hSize.col(i)));
-			if(flip(i,j)!=0) hasNonzero=true;
+			if(i==j) continue;
+			const int n=(int)round(h.col(j).dot(h.col(i))/h.col(i).dot(h.col(i)));
+			h.col(j)-=n*h.col(i); total.col(j)-=n*total.col(i);
 		}
-		if(!hasNonzero) {LOG_TRACE("No flip necessary."); return Matrix3r::Zero();}
+		flip=total-Matrix3i::Identity();
+		if(flip==Matrix3i::Zero()) {LOG_TRACE("No flip necessary."); return Matrix3r::Zero();}
 	} else {
 		if (_flip.determinant()!=1) LOG_WARN("Flipping cell needs det(Id+flip)=1, check your input.");
 		flip=_flip.cast<int>();
@@ -69,12 +71,10 @@ Matrix3r Shop::flipCell(const Matrix3r& _flip){
 	cell->postLoad(*cell);
 
 	// adjust Interaction::cellDist for interactions;
-	// adjunct matrix of (Id + flip) is the inverse since det=1, below is the transposed co-factor matrix of (Id+flip).
-	// note that Matrix3::adjoint is not the adjunct, hence the in-place adjunct below
+	// the inverse of (Id + flip) has integer elements since det=1
+	const Matrix3r invFlipR=(Matrix3r::Identity()+flip.cast<Real>()).inverse();
 	Matrix3i invFlip;
-	invFlip << 1-flip(2,1)*flip(1,2), flip(2,1)*flip(0,2)-flip(0,1), flip(0,1)*flip(1,2)-flip(0,2),
-			    flip(1,2)*flip(2,0)-flip(1,0), 1-flip(0,2)*flip(2,0), flip(0,2)*flip(1,0)-flip(1,2),
-			    flip(1,0)*flip(2,1)-flip(2,0), flip(2,0)*flip(0,1)-flip(2,1), 1-flip(1,0)*flip(0,1);
+	for(int i=0; i<3; i++) for(int j=0; j<3; j++) invFlip(i,j)=(int)round(invFlipR(i,j));
 	FOREACH(const shared_ptr<Interaction>& i, *scene->interactions) i->cellDist = invFlip*i->cellDist;
 
 	// force reinitialization of the collider
-- 
2.43.0


From bb1554b9971bcec4149a2a39555b1acaacc2ec93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:33 +0000
Subject: [PATCH 19/84] fix: bound of a sphere in a cell sheared along several
 axes is too small, contacts are missed

---
 pkg/common/Bo1_Aabb.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pkg/common/Bo1_Aabb.cpp b/pkg/common/Bo1_Aabb.cpp
index 4920b04..be079e2 100644
--- a/pkg/common/Bo1_Aabb.cpp
+++ b/pkg/common/Bo1_Aabb.cpp
@@ -21,14 +21,9 @@ void Bo1_Sphere_Aabb::go(const shared_ptr<Shape>& cm, shared_ptr<Bound>& bv, con
 	}
 	// adjust box size along axes so that sphere doesn't stick out of the box even if sheared (i.e. parallelepiped)
 	if(scene->cell->hasShear()) {
-		Vector3r refHalfSize(halfSize);
-		const Vector3r& cos=scene->cell->getCos();
-		for(int i=0; i<3; i++){
-			//cerr<<"cos["<<i<<"]"<<cos[i]<<" ";
-			int i1=(i+1)%3,i2=(i+2)%3;
-			halfSize[i1]+=.5*refHalfSize[i1]*(1/cos[i]-1);
-			halfSize[i2]+=.5*refHalfSize[i2]*(1/cos[i]-1);
-		}
+		// exact extents of the sphere in the unsheared coordinates
+		const Matrix3r& unshear=scene->cell->getUnshearTrsf();
+		for(int i=0; i<3; i++) halfSize[i]*=unshear.row(i).norm();
 	}
 	//cerr<<" || "<<halfSize<<endl;
 	aabb->min = scene->cell->unshearPt(se3.position)-halfSize;
-- 
2.43.0


From 09ae14eabd37d1a04d5f799a838385fde5a5158d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:10 +0000
Subject: [PATCH 20/84] fix: displacement of bodies in a sheared cell is
 compared with the sweep length in other coordinates, contacts are missed

---
 pkg/dem/NewtonIntegrator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/dem/NewtonIntegrator.cpp b/pkg/dem/NewtonIntegrator.cpp
index ab1aaa2..97570cf 100644
--- a/pkg/dem/NewtonIntegrator.cpp
+++ b/pkg/dem/NewtonIntegrator.cpp
@@ -72,6 +72,8 @@ void NewtonIntegrator::saveMaximaVelocity(const Body::id_t& id, State* state){
 void NewtonIntegrator::saveMaximaDisplacement(const shared_ptr<Body>& b){
 	if (!b->bound) return;//clumps for instance, have no bounds, hence not saved
 	Vector3r disp=b->state->pos-b->bound->refPos;
+	// bounds (and their sweepLength) are in the unsheared coordinates, where the displacement may be larger
+	if (scene->isPeriodic && scene->cell->hasShear()) disp=scene->cell->unshearPt(disp);
 	Real maxDisp=max(std::abs(disp[0]),max(std::abs(disp[1]),std::abs(disp[2])));
 	if (!maxDisp || maxDisp<b->bound->sweepLength) {/*b->bound->isBounding = (updatingDispFactor>0 && (updatingDispFactor*maxDisp)<b->bound->sweepLength);*/
 	maxDisp=0.5;//not 0, else it will be seen as "not updated" by the collider, but less than 1 means no colliding
-- 
2.43.0


From e35a0f224ef0959a4f4cdfb99422f0fbaf447d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:28 +0000
Subject: [PATCH 21/84] fix: O.stopAtTime accepts whole numbers only and is
 skipped unless hit exactly

---
 core/SimulationFlow.cpp    | 3 ++-
 py/wrapper/yadeWrapper.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/SimulationFlow.cpp b/core/SimulationFlow.cpp
index c91a742..0903ef5 100644
--- a/core/SimulationFlow.cpp
+++ b/core/SimulationFlow.cpp
@@ -21,8 +21,9 @@ void SimulationFlow::singleAction()
 		LOG_INFO("Sub-stepping disabled when running simulation continuously.");
 		scene->subStepping=false;
 	}
+	const Real prevTime=scene->time;
 	scene->moveToNextTimeStep();
 	if(scene->stopAtIter>0 && scene->iter==scene->stopAtIter) setTerminate(true);
-	if(scene->stopAtTime>0 && scene->time==scene->stopAtTime) setTerminate(true);
+	if(scene->stopAtTime>0 && prevTime<scene->stopAtTime && scene->time>=scene->stopAtTime) setTerminate(true);
 };
 
diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index df027d7..bf6207c 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -633,7 +633,7 @@ class pyOmega{
 	long stopAtIter_get(){return OMEGA.getScene()->stopAtIter; }
 	void stopAtIter_set(long s){OMEGA.getScene()->stopAtIter=s; }
 	Real stopAtTime_get(){return OMEGA.getScene()->stopAtTime; }
-	void stopAtTime_set(long s){OMEGA.getScene()->stopAtTime=s; }
+	void stopAtTime_set(Real s){OMEGA.getScene()->stopAtTime=s; }
 
 
 	bool timingEnabled_get(){return TimingInfo::enabled;}
-- 
2.43.0


From af0f9ae9c7a075c68c0c65e007219bf19d1219ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:28 +0000
Subject: [PATCH 22/84] fix: the cell is deformed twice in a step if engines
 change after the first sub-step and sub-stepping is switched off

---
 core/Scene.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/Scene.cpp b/core/Scene.cpp
index 5ba16f8..d709515 100644
--- a/core/Scene.cpp
+++ b/core/Scene.cpp
@@ -79,8 +79,7 @@ void Scene::moveToNextTimeStep(){
 	if(!_nextEngines.empty() && (subStep<0 || (subStep<=0 && !subStepping))){
 		engines=_nextEngines;
 		_nextEngines.clear();
-		// hopefully this will not break in some margin cases (subStepping with setting _nextEngines and such)
-		subStep=-1;
+		// if subStep==0, the prologue was run already (with sub-stepping, or before the simulation was saved), it must not run again
 	}
 	if(!subStepping && subStep<0){
 		/* set substep to 0 during the loop, so that engines/nextEngines handler know whether we are inside the loop currently */
-- 
2.43.0


From e08aab14a29def0a65ab5ce2f6b544a38aed0294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:23 +0000
Subject: [PATCH 23/84] fix: a periodic engine added when time has passed runs
 at its first visit though initRun is off

---
 pkg/common/PeriodicEngines.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pkg/common/PeriodicEngines.hpp b/pkg/common/PeriodicEngines.hpp
index 3843311..1989065 100644
--- a/pkg/common/PeriodicEngines.hpp
+++ b/pkg/common/PeriodicEngines.hpp
@@ -24,6 +24,11 @@ class PeriodicEngine:  public GlobalEngine {
 			}
 			
 			if (iterNow<iterLast) nDone=0;//handle O.resetTime(), all counters will be initialized again
+			if(nDone==0){
+				realLast=realNow; virtLast=virtNow; iterLast=iterNow; nDone++;
+				if(initRun) return true;
+				return false;
+			}
 			if((nDo<0 || nDone<nDo) &&
 				((virtPeriod>0 && virtNow-virtLast>=virtPeriod) ||
 				 (realPeriod>0 && realNow-realLast>=realPeriod) ||
@@ -31,12 +36,6 @@ class PeriodicEngine:  public GlobalEngine {
 				realLast=realNow; virtLast=virtNow; iterLast=iterNow; nDone++;
 				return true;
 			}
-			
-			if(nDone==0){
-				realLast=realNow; virtLast=virtNow; iterLast=iterNow; nDone++;
-				if(initRun) return true;
-				return false;
-			}
 			return false;
 		}
 	YADE_CLASS_BASE_DOC_ATTRS_CTOR(PeriodicEngine,GlobalEngine,
-- 
2.43.0


From de3df41d381b7c53f5ca998c9c45daa378ec810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:23 +0000
Subject: [PATCH 24/84] fix: setCohesionNow is applied once more after a
 simulation was saved and loaded

---
 pkg/dem/CohesiveFrictionalContactLaw.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pkg/dem/CohesiveFrictionalContactLaw.hpp b/pkg/dem/CohesiveFrictionalContactLaw.hpp
index 9d8016c..ed4eab2 100644
--- a/pkg/dem/CohesiveFrictionalContactLaw.hpp
+++ b/pkg/dem/CohesiveFrictionalContactLaw.hpp
@@ -141,17 +141,14 @@ class Ip2_CohFrictMat_CohFrictMat_CohFrictPhys : public IPhysFunctor
 		virtual void go(	const shared_ptr<Material>& b1,
 					const shared_ptr<Material>& b2,
 					const shared_ptr<Interaction>& interaction);
-		int cohesionDefinitionIteration;
-
-		YADE_CLASS_BASE_DOC_ATTRS_CTOR(Ip2_CohFrictMat_CohFrictMat_CohFrictPhys,IPhysFunctor,
+		YADE_CLASS_BASE_DOC_ATTRS(Ip2_CohFrictMat_CohFrictMat_CohFrictPhys,IPhysFunctor,
 		"Generates cohesive-frictional interactions with moments, used in the contact law :yref:`Law2_ScGeom6D_CohFrictPhys_CohesionMoment`. The normal/shear stiffness and friction definitions are the same as in :yref:`Ip2_FrictMat_FrictMat_FrictPhys`, check the documentation there for details.\n\nAdhesions related to the normal and the shear components are calculated from :yref:`CohFrictMat::normalCohesion` ($C_n$) and :yref:`CohFrictMat::shearCohesion` ($C_s$). For particles of size $R_1$,$R_2$ the adhesion will be $a_i=C_i min(R_1,R_2)^2$, $i=n,s$.\n\nTwist and rolling stiffnesses are proportional to the shear stiffness through dimensionless factors alphaKtw and alphaKr, such that the rotational stiffnesses are defined by $k_s \\alpha_i R_1 R_2$, $i=tw\\,r$",
 		((bool,setCohesionNow,false,,"If true, assign cohesion to all existing contacts in current time-step. The flag is turned false automatically, so that assignment is done in the current timestep only."))
 		((bool,setCohesionOnNewContacts,false,,"If true, assign cohesion at all new contacts. If false, only existing contacts can be cohesive (also see :yref:`Ip2_CohFrictMat_CohFrictMat_CohFrictPhys::setCohesionNow`), and new contacts are only frictional."))	
 		((shared_ptr<MatchMaker>,normalCohesion,,,"Instance of :yref:`MatchMaker` determining tensile strength"))
 		((shared_ptr<MatchMaker>,shearCohesion,,,"Instance of :yref:`MatchMaker` determining cohesive part of the shear strength (a frictional term might be added depending on :yref:`CohFrictPhys::cohesionDisablesFriction`)"))
 		((shared_ptr<MatchMaker>,frictAngle,,,"Instance of :yref:`MatchMaker` determining how to compute interaction's friction angle. If ``None``, minimum value is used."))
-		,
-		cohesionDefinitionIteration = -1;
+		((long,cohesionDefinitionIteration,-1,Attr::hidden,"Step in which :yref:`Ip2_CohFrictMat_CohFrictMat_CohFrictPhys::setCohesionNow` is being applied (-1 if it is not)"))
 		);
 	FUNCTOR2D(CohFrictMat,CohFrictMat);
 };
-- 
2.43.0


From b9c7bb5374e79498c0ddf0f3d08bcb04f5f8e862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:23 +0000
Subject: [PATCH 25/84] fix: GlobalStiffnessTimeStepper changes the time step
 after a simulation was saved and loaded

---
 pkg/dem/GlobalStiffnessTimeStepper.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/dem/GlobalStiffnessTimeStepper.hpp b/pkg/dem/GlobalStiffnessTimeStepper.hpp
index 94de675..421a1e5 100644
--- a/pkg/dem/GlobalStiffnessTimeStepper.hpp
+++ b/pkg/dem/GlobalStiffnessTimeStepper.hpp
@@ -29,8 +29,7 @@ class GlobalStiffnessTimeStepper : public TimeStepper
 		void computeStiffnesses(Scene*);
 
 		Real		newDt;
-		bool		computedSomething,
- 				computedOnce;
+		bool		computedSomething;
 		void findTimeStepFromBody(const shared_ptr<Body>& body, Scene * ncb);
 	
 	public :
@@ -38,7 +37,7 @@ class GlobalStiffnessTimeStepper : public TimeStepper
 	
 		virtual void computeTimeStep(Scene*);
 		virtual bool isActivated();
-		YADE_CLASS_BASE_DOC_ATTRS_CTOR(
+		YADE_CLASS_BASE_DOC_ATTRS(
 			GlobalStiffnessTimeStepper,TimeStepper,"An engine assigning the time-step as a fraction of the minimum eigen-period in the problem. The derivation is detailed in the chapter on `DEM formulation <https://www.yade-dem.org/doc/formulation.html#dem-simulations>`_. The viscEl option enables to evaluate the timestep in a similar way for the visco-elastic contact law :yref:`Law2_ScGeom_ViscElPhys_Basic`, more detail in :yref:`GlobalStiffnessTimestepper::viscEl`. ",
 			((Real,defaultDt,-1,,"used as the initial value of the timestep (especially useful in the first steps when no contact exist). If negative, it will be defined by :yref:`utils.PWaveTimeStep` * :yref:`GlobalStiffnessTimeStepper::timestepSafetyCoefficient`"))
 			((Real,maxDt,Mathr::MAX_REAL,,"if positive, used as max value of the timestep whatever the computed value"))
@@ -46,8 +45,9 @@ class GlobalStiffnessTimeStepper : public TimeStepper
 			((Real,timestepSafetyCoefficient,0.8,,"safety factor between the minimum eigen-period and the final assigned dt (less than 1)"))
 			((bool,densityScaling,false,,"|yupdate| don't modify this value if you don't plan to modify the scaling factor manually for some bodies. In most cases, it is enough to set :yref:`NewtonIntegrator::densityScaling` and let this one be adjusted automatically."))
 			((Real,targetDt,1,,"if :yref:`NewtonIntegrator::densityScaling` is active, this value will be used as the simulation  timestep and the scaling will use this value of dt as the target value. The value of targetDt is arbitrary and should have no effect in the result in general. However if some bodies have imposed velocities, for instance, they will move more or less per each step depending on this value."))
-			((bool,viscEl,false,,"To use with :yref:`ViscElPhys`. if True, evaluate separetly the minimum eigen-period in the problem considering only the elastic contribution on one hand (spring only), and only the viscous contribution on the other hand (dashpot only). Take then the minimum of the two and use the safety coefficient :yref:`GlobalStiffnessTimestepper::timestepSafetyCoefficient` to take into account the possible coupling between the two contribution.")),
-			computedOnce=false;)
+			((bool,viscEl,false,,"To use with :yref:`ViscElPhys`. if True, evaluate separetly the minimum eigen-period in the problem considering only the elastic contribution on one hand (spring only), and only the viscous contribution on the other hand (dashpot only). Take then the minimum of the two and use the safety coefficient :yref:`GlobalStiffnessTimestepper::timestepSafetyCoefficient` to take into account the possible coupling between the two contribution."))
+			((bool,computedOnce,false,Attr::hidden,"whether the timestep was already computed"))
+			)
 		DECLARE_LOGGER;
 };
 
-- 
2.43.0


From 676735feac5b01581b86246e338c4768bbb966a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:23 +0000
Subject: [PATCH 26/84] fix: O.tmpToFile takes its arguments in the opposite
 order to what is documented

---
 py/wrapper/yadeWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index bf6207c..382a24b 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -671,7 +671,7 @@ class pyOmega{
 	void saveTmp(string mark="", bool quiet=false){ save(":memory:"+mark,quiet);}
 	void loadTmp(string mark="", bool quiet=false){ load(":memory:"+mark,quiet);}
 	py::list lsTmp(){ py::list ret; typedef pair<std::string,string> strstr; FOREACH(const strstr& sim,OMEGA.memSavedSimulations){ string mark=sim.first; boost::algorithm::replace_first(mark,":memory:",""); ret.append(mark); } return ret; }
-	void tmpToFile(string mark, string filename){
+	void tmpToFile(string filename, string mark){
 		if(OMEGA.memSavedSimulations.count(":memory:"+mark)==0) throw runtime_error("No memory-saved simulation named "+mark);
 		boost::iostreams::filtering_ostream out;
 		if(boost::algorithm::ends_with(filename,".bz2")) out.push(boost::iostreams::bzip2_compressor());
-- 
2.43.0


From abe3d50bb5c3c6cefd6e8c0c802062cdf5351119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:22 +0000
Subject: [PATCH 27/84] fix: setting an OpenMPAccumulator attribute (pickling,
 updateAttrs) shares and frees its storage twice

---
 lib/base/openmp-accu.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/base/openmp-accu.hpp b/lib/base/openmp-accu.hpp
index 91965ba..2bcfcec 100644
--- a/lib/base/openmp-accu.hpp
+++ b/lib/base/openmp-accu.hpp
@@ -87,6 +87,9 @@ class OpenMPAccumulator{
 		if(succ!=0) throw std::runtime_error("OpenMPAccumulator: posix_memalign failed to allocate memory.");
 		reset();
 	}
+	// copies have storage of their own
+	OpenMPAccumulator(const OpenMPAccumulator& other): OpenMPAccumulator() { set(other.get()); }
+	OpenMPAccumulator& operator=(const OpenMPAccumulator& other){ set(other.get()); return *this; }
 	~OpenMPAccumulator() { free((void*)data); }
 	// lock-free addition
 	void operator+=(const T& val){ *((T*)(data+omp_get_thread_num()*eSize))+=val; }
-- 
2.43.0


From acfa2fba625caa8534666ced17b719009e221c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:22 +0000
Subject: [PATCH 28/84] fix: OpenMPArrayAccumulator::resize reads past the old
 storage of all threads but the first

---
 lib/base/openmp-accu.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/base/openmp-accu.hpp b/lib/base/openmp-accu.hpp
index 2bcfcec..58a62a7 100644
--- a/lib/base/openmp-accu.hpp
+++ b/lib/base/openmp-accu.hpp
@@ -35,8 +35,8 @@ class OpenMPArrayAccumulator{
 						memcpy(/*dest*/(void*)chunks[th],/*src*/oldChunk,nCL*CLS); // preserve old data
 						free(oldChunk); // deallocate old storage
 					}
-					nCL=nCL_new;
 				}
+				nCL=nCL_new;
 			}
 			// if nCL_new<nCL, do not deallocate memory
 			// if nCL_new==nCL, only update sz
-- 
2.43.0


From e84700dedc26970653ac0458afa66c92c447fe71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:22 +0000
Subject: [PATCH 29/84] fix: dict() and pickling take an attribute redefined in
 a derived class from the base class

---
 lib/serialization/Serializable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/serialization/Serializable.hpp b/lib/serialization/Serializable.hpp
index 7fec98a..130f0a5 100644
--- a/lib/serialization/Serializable.hpp
+++ b/lib/serialization/Serializable.hpp
@@ -161,7 +161,7 @@ if(key==BOOST_PP_STRINGIZE(_DEPREC_OLDNAME(z))){ \
 #define _REGISTER_ATTRIBUTES_DEPREC(thisClass,baseClass,attrs,deprec)  _REGISTER_BOOST_ATTRIBUTES(baseClass,attrs) public: \
 	void pySetAttr(const std::string& key, const boost::python::object& value){BOOST_PP_SEQ_FOR_EACH(_PYSET_ATTR,~,attrs); BOOST_PP_SEQ_FOR_EACH(_PYSET_ATTR_DEPREC,thisClass,deprec); baseClass::pySetAttr(key,value); } \
 	/* list all attributes (except deprecated ones); could return boost::python::set instead*/ /* boost::python::list pyKeys() const {  boost::python::list ret; BOOST_PP_SEQ_FOR_EACH(_PYKEYS_ATTR,~,attrs); ret.extend(baseClass::pyKeys()); return ret; }  */ \
-	/* return dictionary of all acttributes and values; deprecated attributes omitted */ boost::python::dict pyDict() const { boost::python::dict ret; BOOST_PP_SEQ_FOR_EACH(_PYDICT_ATTR,~,attrs); ret.update(baseClass::pyDict()); return ret; } \
+	/* return dictionary of all acttributes and values; deprecated attributes omitted */ boost::python::dict pyDict() const { boost::python::dict ret; ret.update(baseClass::pyDict()); BOOST_PP_SEQ_FOR_EACH(_PYDICT_ATTR,~,attrs); return ret; } \
 	virtual void callPostLoad(void){ baseClass::callPostLoad(); postLoad(*this); }
 
 
-- 
2.43.0


From 3eda0ed1f0897d5b0e9cfb69e0981088d2f7df10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:39 +0000
Subject: [PATCH 30/84] fix: contacts are missed after
 O.interactions.eraseNonReal

---
 core/InteractionContainer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/InteractionContainer.cpp b/core/InteractionContainer.cpp
index a2eda17..f2750e9 100644
--- a/core/InteractionContainer.cpp
+++ b/core/InteractionContainer.cpp
@@ -127,6 +127,7 @@ void InteractionContainer::eraseNonReal(){
 		const shared_ptr<Interaction> i=linIntrs[linPos];
 		if(i->isReal() or !erase(i->getId1(),i->getId2(),linPos)) linPos++;
 	}
+	dirty=true; // bounds of these pairs still overlap, no inversion would tell the collider to create them again
 }
 
 // compare interaction based on their first id
-- 
2.43.0


From 60833d53ceb4a7b81c7085ab3b366cd9fd33118e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:23 +0000
Subject: [PATCH 31/84] fix: energies added by two threads at once could be
 lost

---
 core/EnergyTracker.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/core/EnergyTracker.hpp b/core/EnergyTracker.hpp
index 6df49f2..571b810 100644
--- a/core/EnergyTracker.hpp
+++ b/core/EnergyTracker.hpp
@@ -8,13 +8,15 @@ class EnergyTracker: public Serializable{
 	public:
 	~EnergyTracker();
 	void findId(const std::string& name, int& id, bool reset=false, bool newIfNotFound=true){
-		if(id>0) return; // the caller should have checked this already
-		if(names.count(name)) id=names[name];
-		else if(newIfNotFound) {
-			#ifdef YADE_OPENMP
-				#pragma omp critical
-			#endif
-				{ energies.resize(energies.size()+1); id=energies.size()-1; resetStep.resize(id+1); resetStep[id]=reset; names[name]=id; assert(id<(int)energies.size()); assert(id>=0); }
+		if(id>=0) return; // the caller should have checked this already
+		// another thread may be adding the same name (or any other) right now: search and insertion must not be separated
+		#ifdef YADE_OPENMP
+			#pragma omp critical
+		#endif
+		{
+			const auto it=names.find(name);
+			if(it!=names.end()) id=it->second;
+			else if(newIfNotFound) { const int ix=energies.size(); energies.resize(ix+1); resetStep.resize(ix+1); resetStep[ix]=reset; names[name]=ix; id=ix; }
 		}
 	}
 	// set value of the accumulator; note: must NOT be called from parallel sections!
-- 
2.43.0


From b84358e0dec1e2e8d02468921845dc5c144b2365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:23 +0000
Subject: [PATCH 32/84] fix: concurrent growth of the force container could
 lose forces of the last bodies

---
 core/ForceContainerParallel.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/ForceContainerParallel.cpp b/core/ForceContainerParallel.cpp
index 7695196..a02b2c7 100644
--- a/core/ForceContainerParallel.cpp
+++ b/core/ForceContainerParallel.cpp
@@ -229,8 +229,12 @@ void ForceContainer::resize(size_t newSize, int threadN) {
   _moveData[threadN].resize(newSize,Vector3r::Zero());
   _rotData[threadN].resize(newSize,Vector3r::Zero());
   sizeOfThreads[threadN] = newSize;
-  if (size<newSize) size=newSize;
-  syncedSizes=false;
+  // common to all threads, which may be resizing their storage at the same time
+  #pragma omp critical (ForceContainerSize)
+  {
+    if (size<newSize) size=newSize;
+    syncedSizes=false;
+  }
 }
 
 const int ForceContainer::getNumAllocatedThreads() const {return nThreads;}
-- 
2.43.0


From c2a4d57d5c204565a0e94e34eeead523eda70062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:23 +0000
Subject: [PATCH 33/84] fix: storage of parallel accumulators moved while other
 threads were adding

---
 lib/base/openmp-accu.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/base/openmp-accu.hpp b/lib/base/openmp-accu.hpp
index 58a62a7..fb6d2c9 100644
--- a/lib/base/openmp-accu.hpp
+++ b/lib/base/openmp-accu.hpp
@@ -26,7 +26,9 @@ class OpenMPArrayAccumulator{
 		void resize(size_t n){
 			if(n==sz) return; // nothing to do
 			size_t nCL_new=nCL_for_N(n);
+			// storage must not move when an element is added while other threads are adding to the existing ones, so allocate more than needed
 			if(nCL_new>nCL){
+				nCL_new=std::max(2*nCL_new,size_t(64));
 				for(size_t th=0; th<nThreads; th++){
 					void* oldChunk=(void*)chunks[th];
 					int succ=posix_memalign((void**)(&chunks[th]),/*alignment*/CLS,/*size*/ nCL_new*CLS);
-- 
2.43.0


From 72bcd3e8b5f62e692e0f14417d023e88653e1a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:23 +0000
Subject: [PATCH 34/84] fix: tracked rotational energy of aspherical bodies
 used the inverse rotation

---
 pkg/dem/NewtonIntegrator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/NewtonIntegrator.cpp b/pkg/dem/NewtonIntegrator.cpp
index 97570cf..5849310 100644
--- a/pkg/dem/NewtonIntegrator.cpp
+++ b/pkg/dem/NewtonIntegrator.cpp
@@ -52,7 +52,7 @@ void NewtonIntegrator::updateEnergy(const shared_ptr<Body>& b, const State* stat
 	if(b->isAspherical()){
 		Matrix3r mI; mI<<state->inertia[0],0,0, 0,state->inertia[1],0, 0,0,state->inertia[2];
 		Matrix3r T(state->ori);
-		Erot=.5*b->state->angVel.transpose().dot((T.transpose()*mI*T)*b->state->angVel);
+		Erot=.5*b->state->angVel.transpose().dot((T*mI*T.transpose())*b->state->angVel); // ori rotates local to global axes
 	} else { Erot=0.5*state->angVel.dot(state->inertia.cwiseProduct(state->angVel)); }
 	if(!kinSplit) scene->energy->add(Etrans+Erot,"kinetic",kinEnergyIx,/*non-incremental*/true);
 	else{ scene->energy->add(Etrans,"kinTrans",kinEnergyTransIx,true); scene->energy->add(Erot,"kinRot",kinEnergyRotIx,true); }
-- 
2.43.0


From 486985c695909dd15df90a538fd7d50405151216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:23 +0000
Subject: [PATCH 35/84] fix: NewtonIntegrator.mask was ignored for the rotation
 of aspherical bodies

---
 pkg/dem/NewtonIntegrator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/dem/NewtonIntegrator.cpp b/pkg/dem/NewtonIntegrator.cpp
index 5849310..c7f376d 100644
--- a/pkg/dem/NewtonIntegrator.cpp
+++ b/pkg/dem/NewtonIntegrator.cpp
@@ -260,8 +260,11 @@ void NewtonIntegrator::leapfrogAsphericalRotate(State* state, const Body::id_t&
 	Vector3r angVel_b_half = l_b_half.cwiseQuotient(state->inertia); // local angular velocity at time n+1/2
 	if (densityScaling) angVel_b_half*=state->densityScaling;
 	const Quaternionr dotQ_half=DotQ(angVel_b_half,Q_half); // dQ/dt at time n+1/2
+	const Quaternionr prevOri=state->ori;
 	state->ori=Quaternionr(state->ori.coeffs()+dt*dotQ_half.coeffs()); // Q at time n+1
 	state->angVel=state->ori*angVel_b_half; // global angular velocity at time n+1/2
+	// bodies not matching the mask do not rotate, as in leapfrogSphericalRotate
+	if (mask>0 and !Body::byId(id)->maskCompatible(mask)) { state->ori=prevOri; return; }
 
 	if(scene->forces.getMoveRotUsed() && scene->forces.getRot(id)!=Vector3r::Zero()) {
 		Vector3r r(scene->forces.getRot(id));
-- 
2.43.0


From 94f2c816a025f0a152f4892aedc46a9b3f49d640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:07 +0000
Subject: [PATCH 36/84] fix: utils.getDynamicStress never returned (and crashed
 with erased or non-spherical bodies)

---
 pkg/dem/Shop_02.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pkg/dem/Shop_02.cpp b/pkg/dem/Shop_02.cpp
index ce98a2a..c8d9bac 100644
--- a/pkg/dem/Shop_02.cpp
+++ b/pkg/dem/Shop_02.cpp
@@ -381,14 +381,11 @@ py::list Shop::getDynamicStress()
 	for(unsigned int i(0);i<scene->bodies->size();i++)
     {
         const shared_ptr<Body>& b = Body::byId(i, scene);
+        Sphere * s = b ? dynamic_cast<Sphere*>(b->shape.get()) : NULL;
+        // one item per id, zero for erased and non-spherical bodies
+        if(!s) { kineticStressTensors.append(Matrix3r(Matrix3r::Zero())); continue; }
 		Vector3r vFluct = (scene->isPeriodic) ? scene->cell->bodyFluctuationVel(b->state->pos,b->state->vel,scene->cell->velGrad) : b->state->vel;
-		
-        Sphere * s = YADE_CAST<Sphere*>(b->shape.get());
-        
-        if(s)
-            kineticStressTensors.append(-(3.0/(4.0*M_PI*pow(s->radius,3)))*b->state->mass*vFluct*vFluct.transpose());
-        else
-            kineticStressTensors.append(Matrix3r::Zero());
+        kineticStressTensors.append(Matrix3r(-(3.0/(4.0*M_PI*pow(s->radius,3)))*b->state->mass*vFluct*vFluct.transpose()));
 	}
 	
 	return kineticStressTensors;
-- 
2.43.0


From e02e351d21808497c2a2785902efd50f09a67a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:07 +0000
Subject: [PATCH 37/84] fix: utils.getTotalDynamicStress crashed with erased
 bodies and counted clumps twice

---
 pkg/dem/Shop_02.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/dem/Shop_02.cpp b/pkg/dem/Shop_02.cpp
index c8d9bac..ad19c28 100644
--- a/pkg/dem/Shop_02.cpp
+++ b/pkg/dem/Shop_02.cpp
@@ -410,6 +410,7 @@ Matrix3r Shop::getTotalDynamicStress(Real volume)
     for(unsigned int i(0);i<scene->bodies->size();i++)
     {
         const shared_ptr<Body>& b = Body::byId(i, scene);
+        if(!b || b->isClumpMember()) continue; // the mass of members is that of their clump
 		Vector3r vFluct = (scene->isPeriodic) ? scene->cell->bodyFluctuationVel(b->state->pos,b->state->vel,scene->cell->velGrad) : b->state->vel;
 		
         kineticStressTensor+=b->state->mass*vFluct*vFluct.transpose();
-- 
2.43.0


From e9d06ab12c142d5b95aba32dd06940179146e965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:07 +0000
Subject: [PATCH 38/84] fix: utils.momentum and utils.angularMomentum counted
 clumps twice

---
 pkg/dem/Shop_01.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/dem/Shop_01.cpp b/pkg/dem/Shop_01.cpp
index 09a0b38..f35ef04 100644
--- a/pkg/dem/Shop_01.cpp
+++ b/pkg/dem/Shop_01.cpp
@@ -189,6 +189,7 @@ Vector3r Shop::momentum() {
 	Vector3r ret = Vector3r::Zero();
 	Scene* scene=Omega::instance().getScene().get();
 	FOREACH(const shared_ptr<Body> b, *scene->bodies){
+		if(!b || b->isClumpMember()) continue; // the mass of members is that of their clump
 		ret += b->state->mass * b->state->vel;
 	}
 	return ret;
@@ -199,6 +200,7 @@ Vector3r Shop::angularMomentum(Vector3r origin) {
 	Scene* scene=Omega::instance().getScene().get();
 	Matrix3r T,Iloc;
 	FOREACH(const shared_ptr<Body> b, *scene->bodies){
+		if(!b || b->isClumpMember()) continue; // the mass of members is that of their clump
 		ret += (b->state->pos-origin).cross(b->state->mass * b->state->vel);
 		ret += b->state->angMom;
 	}
-- 
2.43.0


From 0bcda4b7d4d9df0167ddee1056ff16c20383e2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:07 +0000
Subject: [PATCH 39/84] fix: utils.getBodyIdsContacts listed bodies which are
 not in contact

---
 pkg/dem/Shop_02.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/dem/Shop_02.cpp b/pkg/dem/Shop_02.cpp
index ad19c28..69b3a08 100644
--- a/pkg/dem/Shop_02.cpp
+++ b/pkg/dem/Shop_02.cpp
@@ -787,8 +787,10 @@ py::list Shop::getBodyIdsContacts(Body::id_t bodyID) {
 	
 	const shared_ptr<Scene>& scene=Omega::instance().getScene();
 	const shared_ptr<Body>& b = Body::byId(bodyID,scene);
+	if (!b) throw std::invalid_argument("No body #"+boost::lexical_cast<string>(bodyID));
 	
 	for(Body::MapId2IntrT::iterator it=b->intrs.begin(),end=b->intrs.end(); it!=end; ++it) {
+		if (!(*it).second->isReal()) continue; // bodies which are only near are not in contact
 		ret.append((*it).first);
 	}
 	return ret;
-- 
2.43.0


From 8497f9d3f60901b71f9c7ad67edcf1ec16d0bc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:07 +0000
Subject: [PATCH 40/84] fix: utils.avgNumInteractions counted erased bodies

---
 py/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/utils.py b/py/utils.py
index 414fa0c..f49d238 100644
--- a/py/utils.py
+++ b/py/utils.py
@@ -433,7 +433,7 @@ def avgNumInteractions(cutoff=0.,skipFree=False,considerClumps=False):
 	:param considerClumps: also consider clumps if cutoff=0 and skipFree=False; for further explanation see above.
 	
 """
-	if cutoff==0 and not skipFree and not considerClumps: return 2*O.interactions.countReal()*1./len(O.bodies)
+	if cutoff==0 and not skipFree and not considerClumps: return 2*O.interactions.countReal()*1./len([b for b in O.bodies])
 	else:
 		nums,counts=bodyNumInteractionsHistogram(aabbExtrema(cutoff))
 		## CC is 2*C
-- 
2.43.0


From 4abb7c57902d105c895b7d8f8f974f0e96a6283c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:35 +0000
Subject: [PATCH 41/84] fix: forces sent to the master of a distributed run by
 subdomains it does not listen to

Every worker sent a list of forces to the master at every step, but the
master receives only from the subdomains intersecting its own bodies. The
other messages were never received: they accumulated (or blocked the worker
when the send is not buffered), and as soon as such a subdomain reached the
master's bodies after a merge/split, the master applied the forces of much
older iterations.
---
 py/mpy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/mpy.py b/py/mpy.py
index 0f278f7..bff7aad 100644
--- a/py/mpy.py
+++ b/py/mpy.py
@@ -353,6 +353,7 @@ def isendRecvForces():
 	O.freqs=[] #keep that one defined even if empty, it is accessed in other functions
 	if ACCUMULATE_FORCES:
 		if rank!=0:
+			if len(O.subD.mirrorIntersections[0])==0: return #no intersection with master, which is not waiting for anything
 			forces0=[[id,O.forces.f(id),O.forces.t(id)] for id in  O.subD.mirrorIntersections[0]]
 			#wprint ("worker "+str(rank)+": sending "+str(len(forces0))+" "+str("forces to 0 "))
 			#O.freqs.append(comm.isend(forces0, dest=0, tag=_FORCES_))
-- 
2.43.0


From 499b71477fb9ccb67e680358756b1c412dabf298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:44 +0000
Subject: [PATCH 42/84] fix: NameError in mpy.sendRecvStates when USE_CPP_MPI
 is off

---
 py/mpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/mpy.py b/py/mpy.py
index bff7aad..e75a324 100644
--- a/py/mpy.py
+++ b/py/mpy.py
@@ -320,7 +320,7 @@ def sendRecvStates():
 			comm.send(genUpdatedStates(O.subD.intersections[k]), dest=k, tag=_ID_STATE_SHAPE_) #should be non-blocking if n>2, else lock?
 		else:
 			if not USE_CPP_MPI:
-				reqs.append(comm.isend(subD.getStateValues(k), dest=k, tag=_ID_STATE_SHAPE_)) #should be non-blocking if n>2, else lock?
+				reqs.append(comm.isend(O.subD.getStateValues(k), dest=k, tag=_ID_STATE_SHAPE_)) #should be non-blocking if n>2, else lock?
 			else:
 				O.subD.mpiSendStates(k)
 		for r in reqs: r.wait() #empty if USE_CPP_MPI
-- 
2.43.0


From 1c6e351f43e965a87a1fa9f55f9d2b862c673bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:55 +0000
Subject: [PATCH 43/84] fix: distributed runs crashed when bodies had been
 erased

---
 core/Subdomain.cpp | 2 +-
 py/mpy.py          | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/Subdomain.cpp b/core/Subdomain.cpp
index 21fc742..ab54400 100644
--- a/core/Subdomain.cpp
+++ b/core/Subdomain.cpp
@@ -23,7 +23,7 @@ void Subdomain::setMinMax()
 	Real inf=std::numeric_limits<Real>::infinity();
 	boundsMin=Vector3r(inf,inf,inf); boundsMax=Vector3r(-inf,-inf,-inf);
 	if (ids.size()==0) LOG_WARN("empty subdomain!");
-	if (ids.size()>0 and Body::byId(ids[0],scene)->subdomain != scene->subdomain) LOG_WARN("setMinMax executed with deprecated data (body->subdomain != scene->subdomain)");
+	if (ids.size()>0 and Body::byId(ids[0],scene) and Body::byId(ids[0],scene)->subdomain != scene->subdomain) LOG_WARN("setMinMax executed with deprecated data (body->subdomain != scene->subdomain)");
 	FOREACH(const Body::id_t& id, ids){
 		const shared_ptr<Body>& b = Body::byId(id,scene);
 		if(!b or !b->bound) continue;
diff --git a/py/mpy.py b/py/mpy.py
index e75a324..57e39eb 100644
--- a/py/mpy.py
+++ b/py/mpy.py
@@ -241,6 +241,7 @@ def genLocalIntersections(subdomains):
 			for i in intrs:
 				otherId=i.id1 if i.id2==sdId else i.id2
 				b=O.bodies[otherId]
+				if b is None: continue #erased
 				if b.subdomain==0:
 					if isinstance(b.shape,PFacet):
 						intersections[0]+= maskedPFacet(b, appended); continue
@@ -254,6 +255,7 @@ def genLocalIntersections(subdomains):
 		for i in intrs:
 			otherId=i.id1 if i.id2==sdId else i.id2
 			b=O.bodies[otherId]
+			if b is None: continue #erased
 			if b.subdomain!=rank: continue
 			if b.isSubdomain: intersections[rank].append(subdIdx) #intersecting subdomain (will need to receive updated positions from there)
 			else:
@@ -517,6 +519,7 @@ def splitScene():
 	if ERASE_REMOTE and rank>0: #workers suppress external bodies from scene, master will keep all bodies anyway 
 		numBodies = len(O.bodies)
 		for id in range(numBodies):
+			if O.bodies[id] is None: continue #erased already
 			if not O.bodies[id].bounded and O.bodies[id].subdomain!=rank:
 				connected = False #a gridNode could be needed as part of interacting facet/connection even if not overlaping a specific subdomain. Assume connections are always bounded for now, we thus only check nodes.
 				if isinstance(O.bodies[id].shape,GridNode):
-- 
2.43.0


From b875a7ad9c4615f93f3afc1ab2bcacb0f9c90e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:12 +0000
Subject: [PATCH 44/84] fix: contacts between subdomains missed after
 consecutive calls of mpirun

When the collider became active at the last step of mpirun(), the
redistribution was skipped and the next mpirun() did not make up for it: each
rank ran its own collider, and bodies arriving from other subdomains were not
seen until the following activation.
---
 py/mpy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/mpy.py b/py/mpy.py
index 57e39eb..b3a9204 100644
--- a/py/mpy.py
+++ b/py/mpy.py
@@ -555,6 +555,9 @@ def splitScene():
 def mpirun(nSteps,mergeSplit=False):
 	initStep = O.iter
 	if not O.splitted: splitScene()
+	elif checkColliderActivated(): #the previous mpirun() stopped when an update was due
+		mergeScene()
+		splitScene()
 	if YADE_TIMING:
 		O.timingEnabled=True
 	if not mergeSplit: #run until collider is activated then stop		
-- 
2.43.0


From 83dc62bc8fd9ed6d677732701633b5788d218f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:13 +0000
Subject: [PATCH 45/84] fix: mpirun without mergeSplit did not stop at
 collisions after a run with mergeSplit

---
 py/mpy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/mpy.py b/py/mpy.py
index b3a9204..9c95f4b 100644
--- a/py/mpy.py
+++ b/py/mpy.py
@@ -561,6 +561,7 @@ def mpirun(nSteps,mergeSplit=False):
 	if YADE_TIMING:
 		O.timingEnabled=True
 	if not mergeSplit: #run until collider is activated then stop		
+		collisionChecker.dead=False #may have been turned off by a previous mpirun(n,True)
 		O.run(nSteps,True)
 	else: #merge/split for each collider update
 		collisionChecker.dead=True
-- 
2.43.0


From 31dd1f25b15ece2f64727a690a926ac6b7d59f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:25 +0000
Subject: [PATCH 46/84] fix: CpmPhys contacts in periodic scenes did not
 conserve angular momentum

---
 pkg/dem/ConcretePM.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/ConcretePM.cpp b/pkg/dem/ConcretePM.cpp
index be4c791..8432738 100644
--- a/pkg/dem/ConcretePM.cpp
+++ b/pkg/dem/ConcretePM.cpp
@@ -445,8 +445,8 @@ bool Law2_ScGeom_CpmPhys_Cpm::go(shared_ptr<IGeom>& _geom, shared_ptr<IPhys>& _p
 	} else {
 		scene->forces.addForce(id1,f);
 		scene->forces.addForce(id2,-f);
-		scene->forces.addTorque(id1,(geom->radius1+.5*(phys->refPD-geom->penetrationDepth))*geom->normal.cross(f));
-		scene->forces.addTorque(id2,(geom->radius2+.5*(phys->refPD-geom->penetrationDepth))*geom->normal.cross(f));
+		scene->forces.addTorque(id1,(geom->radius1-.5*geom->penetrationDepth)*geom->normal.cross(f));
+		scene->forces.addTorque(id2,(geom->radius2-.5*geom->penetrationDepth)*geom->normal.cross(f));
 	}
 	TIMING_DELTAS_CHECKPOINT("rest");
 	return true;
-- 
2.43.0


From f0be5c1ac091b22288465587984a0514ad12e326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:25 +0000
Subject: [PATCH 47/84] fix: relative velocity of contacts across the periodic
 boundary had the cell velocity with the wrong sign (ViscoelasticPM)

---
 pkg/dem/ViscoelasticPM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/ViscoelasticPM.cpp b/pkg/dem/ViscoelasticPM.cpp
index 61c8091..0e8cc36 100644
--- a/pkg/dem/ViscoelasticPM.cpp
+++ b/pkg/dem/ViscoelasticPM.cpp
@@ -108,7 +108,7 @@ bool computeForceTorqueViscEl(shared_ptr<IGeom>& _geom, shared_ptr<IPhys>& _phys
 		const Vector3r c1x = (geom.contactPoint - de1.pos);
 		const Vector3r c2x = (geom.contactPoint - de2.pos - shift2);
 		
-		const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)) + shiftVel;
+		const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)+shiftVel);
 		const Real normalVelocity	= geom.normal.dot(relativeVelocity);
 		const Vector3r shearVelocity	= relativeVelocity-normalVelocity*geom.normal;
 		
-- 
2.43.0


From 2f9f8cf20b2703dbb604daa5af26431debce14da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:25 +0000
Subject: [PATCH 48/84] fix: relative velocity of contacts across the periodic
 boundary had the cell velocity with the wrong sign (ViscoelasticCapillarPM)

---
 pkg/dem/ViscoelasticCapillarPM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/ViscoelasticCapillarPM.cpp b/pkg/dem/ViscoelasticCapillarPM.cpp
index b474198..c008723 100644
--- a/pkg/dem/ViscoelasticCapillarPM.cpp
+++ b/pkg/dem/ViscoelasticCapillarPM.cpp
@@ -148,7 +148,7 @@ bool Law2_ScGeom_ViscElCapPhys_Basic::go(shared_ptr<IGeom>& _geom, shared_ptr<IP
         const Vector3r c1x = (geom.contactPoint - de1.pos);
         const Vector3r c2x = (geom.contactPoint - de2.pos - shift2);
         
-        const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)) + shiftVel;
+        const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)+shiftVel);
         const auto normalVelocity	= geom.normal.dot(relativeVelocity);
         
         dampCapForceScalar = -phys.dcap * normalVelocity;
-- 
2.43.0


From bb7d897faaafb2d76a234d34b9eaee19dcec4a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:25 +0000
Subject: [PATCH 49/84] fix: relative velocity of contacts across the periodic
 boundary had the cell velocity with the wrong sign (LudingPM)

---
 pkg/dem/LudingPM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/LudingPM.cpp b/pkg/dem/LudingPM.cpp
index ecf33fa..fc5e3fe 100644
--- a/pkg/dem/LudingPM.cpp
+++ b/pkg/dem/LudingPM.cpp
@@ -183,7 +183,7 @@ bool Law2_ScGeom_LudingPhys_Basic::go(shared_ptr<IGeom>& _geom, shared_ptr<IPhys
   const Vector3r c2x = (geom.contactPoint - de2.pos - shift2);
   
   
-  const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)) + shiftVel;
+  const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)+shiftVel);
   const Real normalVelocity	= geom.normal.dot(relativeVelocity);
   const Vector3r shearVelocity	= relativeVelocity-normalVelocity*geom.normal;
 
-- 
2.43.0


From 44a8f29b9b3d43f0251380f40d1ab5042a974524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:37 +0000
Subject: [PATCH 50/84] fix: relative velocity across the periodic boundary not
 from the step of the body velocities (HertzWithLinearShear)

---
 pkg/dem/HertzMindlin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/HertzMindlin.cpp b/pkg/dem/HertzMindlin.cpp
index a68c814..4c26039 100644
--- a/pkg/dem/HertzMindlin.cpp
+++ b/pkg/dem/HertzMindlin.cpp
@@ -209,7 +209,7 @@ bool Law2_ScGeom_MindlinPhys_HertzWithLinearShear::go(shared_ptr<IGeom>& ig, sha
 	Vector3r shearIncrement;
 	if(nonLin>1){
 		State *de1=Body::byId(id1,scene)->state.get(), *de2=Body::byId(id2,scene)->state.get();	
-		Vector3r shiftVel=scene->isPeriodic ? Vector3r(scene->cell->velGrad*scene->cell->hSize*contact->cellDist.cast<Real>()) : Vector3r::Zero();
+		Vector3r shiftVel=scene->isPeriodic ? scene->cell->intrShiftVel(contact->cellDist) : Vector3r::Zero();
 		Vector3r shift2 = scene->isPeriodic ? Vector3r(scene->cell->hSize*contact->cellDist.cast<Real>()): Vector3r::Zero();
 		
 		
-- 
2.43.0


From eaaef4f55b6ca8deac5b590f5df2cae39fd71ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:37 +0000
Subject: [PATCH 51/84] fix: relative velocity across the periodic boundary not
 from the step of the body velocities (Lubrication)

---
 pkg/dem/Lubrication.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/Lubrication.cpp b/pkg/dem/Lubrication.cpp
index 0650b9c..9deced0 100644
--- a/pkg/dem/Lubrication.cpp
+++ b/pkg/dem/Lubrication.cpp
@@ -368,7 +368,7 @@ bool Law2_ScGeom_ImplicitLubricationPhys::go(shared_ptr<IGeom> &iGeom, shared_pt
     bool isNew=false;
 	
 	// Speeds
-    Vector3r shiftVel=scene->isPeriodic ? Vector3r(scene->cell->velGrad*scene->cell->hSize*interaction->cellDist.cast<Real>()) : Vector3r::Zero();
+    Vector3r shiftVel=scene->isPeriodic ? scene->cell->intrShiftVel(interaction->cellDist) : Vector3r::Zero();
     Vector3r shift2 = scene->isPeriodic ? Vector3r(scene->cell->hSize*interaction->cellDist.cast<Real>()): Vector3r::Zero();
 
     Vector3r relV = geom->getIncidentVel(s1, s2, scene->dt, shift2, shiftVel, false );
-- 
2.43.0


From 53d903b52e378c0270425bed858ebafb37cd824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:37 +0000
Subject: [PATCH 52/84] fix: relative velocity across the periodic boundary not
 from the step of the body velocities (ElectrostaticMat)

---
 pkg/dem/ElectrostaticMat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/ElectrostaticMat.cpp b/pkg/dem/ElectrostaticMat.cpp
index 6312f2f..f358037 100644
--- a/pkg/dem/ElectrostaticMat.cpp
+++ b/pkg/dem/ElectrostaticMat.cpp
@@ -134,7 +134,7 @@ bool Law2_ScGeom_ElectrostaticPhys::go(shared_ptr<IGeom>& iGeom, shared_ptr<IPhy
     bool isNew=false;
 	
 	// Speeds
-    Vector3r shiftVel=scene->isPeriodic ? Vector3r(scene->cell->velGrad*scene->cell->hSize*interaction->cellDist.cast<Real>()) : Vector3r::Zero();
+    Vector3r shiftVel=scene->isPeriodic ? scene->cell->intrShiftVel(interaction->cellDist) : Vector3r::Zero();
     Vector3r shift2 = scene->isPeriodic ? Vector3r(scene->cell->hSize*interaction->cellDist.cast<Real>()): Vector3r::Zero();
 
     Vector3r relV = geom->getIncidentVel(s1, s2, scene->dt, shift2, shiftVel, false );
-- 
2.43.0


From b9371cb06b660684d998a4e02fedcfb613352e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:59 +0000
Subject: [PATCH 53/84] fix: L3Geom: shear depended on the order of the bodies
 (noRatch) and on the period of the second body

---
 pkg/dem/L3Geom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/L3Geom.cpp b/pkg/dem/L3Geom.cpp
index 182061d..c2de061 100644
--- a/pkg/dem/L3Geom.cpp
+++ b/pkg/dem/L3Geom.cpp
@@ -115,8 +115,8 @@ void Ig2_Sphere_Sphere_L3Geom::handleSpheresLikeContact(const shared_ptr<Interac
 	Vector3r normTwistVec=avgNormal*scene->dt*.5*avgNormal.dot(state1.angVel+state2.angVel);
 	// compute relative velocity
 	// noRatch: take radius or current distance as the branch vector; see discussion in ScGeom::precompute (avoidGranularRatcheting)
-	Vector3r c1x=((noRatch && !(r1>0)) ? ( r1*normal).eval() : (contPt-state1.pos).eval()); // used only for sphere-sphere
-	Vector3r c2x=(noRatch ? (-r2*normal).eval() : (contPt-state2.pos+shift2).eval());
+	Vector3r c1x=((noRatch && r1>0) ? ( r1*normal).eval() : (contPt-state1.pos).eval()); // used only for sphere-sphere
+	Vector3r c2x=(noRatch ? (-r2*normal).eval() : (contPt-(state2.pos+shift2)).eval());
 	//Vector3r state2velCorrected=state2.vel+(scene->isPeriodic?scene->cell->intrShiftVel(I->cellDist):Vector3r::Zero()); // velocity of the second particle, corrected with meanfield velocity if necessary
 	//cerr<<"correction "<<(scene->isPeriodic?scene->cell->intrShiftVel(I->cellDist):Vector3r::Zero())<<endl;
 	Vector3r relShearVel=(state2.vel+state2.angVel.cross(c2x))-(state1.vel+state1.angVel.cross(c1x));
-- 
2.43.0


From 6122610867c2f818882074f7cb794fbf041e9d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:53 +0000
Subject: [PATCH 54/84] fix: Cell.size could not be assigned (the property was
 overridden by a read-only one)

---
 core/Cell.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/Cell.hpp b/core/Cell.hpp
index fac85eb..08156e1 100644
--- a/core/Cell.hpp
+++ b/core/Cell.hpp
@@ -169,7 +169,6 @@ class Cell: public Serializable{
 		// useful properties
 		.add_property("trsf",&Cell::getTrsf,&Cell::setTrsf,"Current transformation matrix of the cell, obtained from time integration of :yref:`Cell.velGrad`.")
 		.add_property("velGrad",&Cell::getVelGrad,&Cell::setVelGrad,"Velocity gradient of the transformation; used in :yref:`NewtonIntegrator`. Values of :yref:`velGrad<Cell.velGrad>` accumulate in :yref:`trsf<Cell.trsf>` at every step.\n\n NOTE: changing velGrad at the beginning of a simulation loop would lead to inacurate integration for one step, as it should normaly be changed after the contact laws (but before Newton). To avoid this problem, assignment is deferred automatically. The target value typed in terminal is actually stored in :yref:`Cell.nextVelGrad` and will be applied right in time by Newton integrator. \n\n.. note::\n\t Assigning individual components of velGrad is not possible (it will not return any error but it will have no effect). Instead, you can assign to :yref:`Cell.nextVelGrad`, as in O.cell.nextVelGrad[1,2]=1.")
-		.def_readonly("size",&Cell::getSize_copy,"Current size of the cell, i.e. lengths of the 3 cell lateral vectors contained in :yref:`Cell.hSize` columns. Updated automatically at every step.")
 		.add_property("volume",&Cell::getVolume,"Current volume of the cell.")
 		// functions
 		.def("setBox",&Cell::setBox,"Set :yref:`Cell` shape to be rectangular, with dimensions along axes specified by given argument. Shorthand for assigning diagonal matrix with respective entries to :yref:`hSize<Cell.hSize>`.")
-- 
2.43.0


From c0a5c816dc0e7742d610c007e561fd5431fcddee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:13 +0000
Subject: [PATCH 55/84] fix: StepDisplacer crashed on bodies which had been
 erased

---
 pkg/common/StepDisplacer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/common/StepDisplacer.hpp b/pkg/common/StepDisplacer.hpp
index 498f0f8..5d11b3f 100644
--- a/pkg/common/StepDisplacer.hpp
+++ b/pkg/common/StepDisplacer.hpp
@@ -9,6 +9,7 @@ class StepDisplacer: public PartialEngine {
 		virtual void action() {
 			FOREACH(Body::id_t id, ids){
 			const shared_ptr<Body>& b=Body::byId(id,scene);
+			if(!b) continue;
 			if(setVelocities){
 				const Real& dt=scene->dt;
 				b->state->vel=mov/dt;
-- 
2.43.0


From 2df15f6b103caf1bcdf454297f2c3a86f1d08dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:34 +0000
Subject: [PATCH 56/84] fix: SpherePack made from a list had an uninitialized
 isPeriodic

---
 pkg/dem/SpherePack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/SpherePack.hpp b/pkg/dem/SpherePack.hpp
index 43123f0..aa05161 100644
--- a/pkg/dem/SpherePack.hpp
+++ b/pkg/dem/SpherePack.hpp
@@ -36,7 +36,7 @@ public:
 	Real appliedPsdScaling;//a scaling factor that can be applied on size distribution
 	bool isPeriodic;
 	SpherePack(): cellSize(Vector3r::Zero()), appliedPsdScaling(1.), isPeriodic(0) {};
-	SpherePack(const boost::python::list& l):cellSize(Vector3r::Zero()){ fromList(l); }
+	SpherePack(const boost::python::list& l):cellSize(Vector3r::Zero()), appliedPsdScaling(1.), isPeriodic(0) { fromList(l); }
 	// add single sphere
 	void add(const Vector3r& c, Real r){ pack.push_back(Sph(c,r)); }
 
-- 
2.43.0


From 6d841b4ce4c391d7cc22d650b7130fb9a658cafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:34 +0000
Subject: [PATCH 57/84] fix: SpherePack kept the period of discarded data, and
 lost that of a loaded file

---
 pkg/dem/SpherePack.cpp | 9 +++++----
 pkg/dem/SpherePack.hpp | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/pkg/dem/SpherePack.cpp b/pkg/dem/SpherePack.cpp
index 5e30fac..7a57f79 100644
--- a/pkg/dem/SpherePack.cpp
+++ b/pkg/dem/SpherePack.cpp
@@ -21,7 +21,7 @@ namespace py=boost::python;
 
 
 void SpherePack::fromList(const py::list& l){
-	pack.clear();
+	pack.clear(); cellSize=Vector3r::Zero(); isPeriodic=false;
 	size_t len=py::len(l);
 	for(size_t i=0; i<len; i++){
 		const py::tuple& t=py::extract<py::tuple>(l[i]);
@@ -39,7 +39,7 @@ void SpherePack::fromLists(const vector<Vector3r>& centers, const vector<Real>&
 	for(size_t i=0; i<l; i++){
 		add(centers[i],radii[i]);
 	}
-	cellSize=Vector3r::Zero();
+	cellSize=Vector3r::Zero(); isPeriodic=false;
 }
 
 py::list SpherePack::toList() const {
@@ -51,8 +51,9 @@ py::list SpherePack::toList() const {
 void SpherePack::fromFile(string file) {
 	typedef boost::tuple<Vector3r,Real,int> tupleVector3rRealInt;
 	vector<tupleVector3rRealInt> ss;
-	Vector3r mn,mx;
+	Vector3r mn,mx; cellSize=Vector3r::Zero();
 	ss=Shop::loadSpheresFromFile(file,mn,mx,&cellSize);
+	isPeriodic=(cellSize!=Vector3r::Zero());
 	pack.clear();
 	FOREACH(const tupleVector3rRealInt& s, ss) pack.push_back(Sph(boost::get<0>(s),boost::get<1>(s),boost::get<2>(s)));
 }
@@ -69,7 +70,7 @@ void SpherePack::toFile(const string fname) const {
 };
 
 void SpherePack::fromSimulation() {
-	pack.clear();
+	pack.clear(); cellSize=Vector3r::Zero(); isPeriodic=false;
 	Scene* scene=Omega::instance().getScene().get();
 	FOREACH(const shared_ptr<Body>& b, *scene->bodies){
 		if(!b) continue;
diff --git a/pkg/dem/SpherePack.hpp b/pkg/dem/SpherePack.hpp
index aa05161..1c6fd32 100644
--- a/pkg/dem/SpherePack.hpp
+++ b/pkg/dem/SpherePack.hpp
@@ -92,14 +92,14 @@ public:
 	void rotate(const Vector3r& axis, Real angle){
 		if(cellSize!=Vector3r::Zero()) { 
       LOG_WARN("Periodicity reset when rotating periodic packing (non-zero cellSize="<<cellSize<<")"); 
-      cellSize=Vector3r::Zero(); 
+      cellSize=Vector3r::Zero(); isPeriodic=false;
     }
 		Vector3r mid=midPt(); Quaternionr q(AngleAxisr(angle,axis)); FOREACH(Sph& s, pack) s.c=q*(s.c-mid)+mid;
 	}
 	void rotateAroundOrigin(const Quaternionr& rot){
 		if(cellSize!=Vector3r::Zero()){ 
       LOG_WARN("Periodicity reset when rotating periodic packing (non-zero cellSize="<<cellSize<<")"); 
-      cellSize=Vector3r::Zero(); 
+      cellSize=Vector3r::Zero(); isPeriodic=false;
     }
 		FOREACH(Sph& s, pack) s.c=rot*s.c;
 	}
-- 
2.43.0


From 0830fb7ea568b99c9bc8428bf09d55f5175477a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:34 +0000
Subject: [PATCH 58/84] fix: SpherePack.cellRepeat lost the clumps in the
 copies of the cell

---
 pkg/dem/SpherePack.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/dem/SpherePack.cpp b/pkg/dem/SpherePack.cpp
index 7a57f79..ca9e4bb 100644
--- a/pkg/dem/SpherePack.cpp
+++ b/pkg/dem/SpherePack.cpp
@@ -267,6 +267,7 @@ void SpherePack::cellRepeat(Vector3i count){
 	if(cellSize==Vector3r::Zero()){ throw std::runtime_error("cellRepeat cannot be used on non-periodic packing."); }
 	if(count[0]<=0 || count[1]<=0 || count[2]<=0){ throw std::invalid_argument("Repeat count components must be positive."); }
 	size_t origSize=pack.size();
+	int clumpIds=0; FOREACH(const Sph& s, pack) clumpIds=max(clumpIds,s.clumpId+1); // each copy has its own clumps
 	pack.reserve(origSize*count[0]*count[1]*count[2]);
 	for(int i=0; i<count[0]; i++){
 		for(int j=0; j<count[1]; j++){
@@ -274,7 +275,7 @@ void SpherePack::cellRepeat(Vector3i count){
 				if((i==0) && (j==0) && (k==0)) continue; // original cell
 				Vector3r off(cellSize[0]*i,cellSize[1]*j,cellSize[2]*k);
 				for(size_t l=0; l<origSize; l++){
-					const Sph& s=pack[l]; pack.push_back(Sph(s.c+off,s.r));
+					const Sph& s=pack[l]; pack.push_back(Sph(s.c+off,s.r,s.clumpId<0?-1:s.clumpId+clumpIds*((i*count[1]+j)*count[2]+k)));
 				}
 			}
 		}
-- 
2.43.0


From 74494520afcd6d8943e0d467ee84f68d2e0eec86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:34 +0000
Subject: [PATCH 59/84] fix: SpherePack.makeClumpCloud read past the last
 sphere and did not center the clumps

---
 pkg/dem/SpherePack.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/SpherePack.cpp b/pkg/dem/SpherePack.cpp
index ca9e4bb..2420030 100644
--- a/pkg/dem/SpherePack.cpp
+++ b/pkg/dem/SpherePack.cpp
@@ -319,7 +319,7 @@ long SpherePack::makeClumpCloud(const Vector3r& mn, const Vector3r& mx, const ve
 	vector<Real> boundRad; // squared radii of bounding sphere for each clump
 	FOREACH(const shared_ptr<SpherePack>& c, _clumps){
 		SpherePack c2(*c); 
-		c2.translate(c2.midPt()); //recenter
+		c2.translate(-c2.midPt()); //recenter
 		clumps.push_back(c2);
 		Real r=0;
 		FOREACH(const Sph& s, c2.pack) r=max(r,s.c.norm()+s.r);
@@ -406,7 +406,7 @@ long SpherePack::makeClumpCloud(const Vector3r& mn, const Vector3r& mx, const ve
 			#endif
 
 			// add the clump, if no collisions
-			/*number clumps consecutively*/ ci.clumpId=nGen; ci.center=pos; ci.rad=rad; ci.minId=pack.size(); ci.maxId=pack.size()+C.pack.size(); 
+			/*number clumps consecutively*/ ci.clumpId=nGen; ci.center=pos; ci.rad=rad; ci.minId=pack.size(); ci.maxId=pack.size()+C.pack.size()-1; 
 			FOREACH(const Sph& s, C.pack){
 				pack.push_back(Sph(s.c,s.r,ci.clumpId));
 			}
-- 
2.43.0


From 9ccced82f44263a8bf23c09dd64692070262d89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:34 +0000
Subject: [PATCH 60/84] fix: pack.notInNotch accepted points too close to the
 lower edge of the notch

---
 py/pack/_packPredicates.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/pack/_packPredicates.cpp b/py/pack/_packPredicates.cpp
index 04d1825..0925f6c 100644
--- a/py/pack/_packPredicates.cpp
+++ b/py/pack/_packPredicates.cpp
@@ -265,7 +265,7 @@ public:
 		if(distDown   >=pad) return true;
 		if(distInPlane<0) return false;
 		if(distUp  >0) return sqrt(pow(distInPlane,2)+pow(distUp,2))>=pad;
-		if(distDown>0) return sqrt(pow(distInPlane,2)+pow(distUp,2))>=pad;
+		if(distDown>0) return sqrt(pow(distInPlane,2)+pow(distDown,2))>=pad;
 		// between both notch planes, closer to the edge than pad (distInPlane<pad)
 		return false;
 	}
-- 
2.43.0


From 3215ccb3cf304406b3cc8dcc43aee7e51c7f1011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:34 +0000
Subject: [PATCH 61/84] fix: symmetric difference of predicates accepted points
 closer than pad to the boundary

---
 py/pack/_packPredicates.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/pack/_packPredicates.cpp b/py/pack/_packPredicates.cpp
index 0925f6c..d8c540a 100644
--- a/py/pack/_packPredicates.cpp
+++ b/py/pack/_packPredicates.cpp
@@ -88,7 +88,7 @@ PredicateDifference makeDifference(const py::object& A, const py::object& B){ re
 class PredicateSymmetricDifference: public PredicateBoolean{
 	public:
 		PredicateSymmetricDifference(const py::object _A, const py::object _B): PredicateBoolean(_A,_B){}
-		virtual bool operator()(const Vector3r& pt,Real pad) const {bool inA=obj2pred(A)(pt,pad), inB=obj2pred(B)(pt,pad); return (inA && !inB) || (!inA && inB);}
+		virtual bool operator()(const Vector3r& pt,Real pad) const {const Predicate& a=obj2pred(A); const Predicate& b=obj2pred(B); return (a(pt,pad) && !b(pt,-pad)) || (b(pt,pad) && !a(pt,-pad));}
 		virtual py::tuple aabb() const { 
 			Vector3r minA,maxA,minB,maxB; 
 			ttuple2vvec(obj2pred(A).aabb(),minA,maxA); 
-- 
2.43.0


From ce5d1d961ab6c061e25af87bc63cadf1e2e06fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:34 +0000
Subject: [PATCH 62/84] fix: pack.inSpace, inHalfSpace and inConvexPolyhedron
 did not work in boolean operations

---
 py/pack/pack.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py/pack/pack.py b/py/pack/pack.py
index be54fb5..8095922 100644
--- a/py/pack/pack.py
+++ b/py/pack/pack.py
@@ -166,7 +166,9 @@ if not (noPredicate):
   
   class inSpace(Predicate):
     """Predicate returning True for any points, with infinite bounding box."""
-    def __init__(self, _center=Vector3().Zero): self._center=_center
+    def __init__(self, _center=Vector3().Zero):
+      super(inSpace,self).__init__()
+      self._center=_center
     def aabb(self):
       inf=float('inf'); return Vector3(-inf,-inf,-inf),Vector3(inf,inf,inf)
     def center(self): return self._center
@@ -177,6 +179,7 @@ if not (noPredicate):
   class inHalfSpace(Predicate):
     """Predicate returning True  any points, with infinite bounding box."""
     def __init__(self, _center=Vector3().Zero, _dir=Vector3(1,0,0)):
+      super(inHalfSpace,self).__init__()
       self._center = Vector3(_center)
       self._dir = Vector3(_dir)
       assert self._dir.norm() > 0., "Direction has to be nonzero vector"
@@ -205,6 +208,7 @@ if not (noPredicate):
 
   class inConvexPolyhedron(Predicate):
     def __init__(self,planes):
+      super(inConvexPolyhedron,self).__init__()
       self._inHalfSpaces = [inHalfSpace(c,d) for c,d in planes]
       self._min, self._max = self._computeAabb()
     def _computeAabb(self):
-- 
2.43.0


From 2d8cf18a036d9411c32dcc959286b83bfce54829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:37 +0000
Subject: [PATCH 63/84] fix: damage and plastic strains of concrete contacts
 (CpmPhys) were not saved

---
 pkg/dem/ConcretePM.hpp | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/pkg/dem/ConcretePM.hpp b/pkg/dem/ConcretePM.hpp
index 2c9702d..32f719f 100644
--- a/pkg/dem/ConcretePM.hpp
+++ b/pkg/dem/ConcretePM.hpp
@@ -139,11 +139,6 @@ REGISTER_SERIALIZABLE(CpmMat);
 class CpmPhys: public NormShearPhys {
 	public:
 		static long cummBetaIter, cummBetaCount;
-		/*! auxiliary variable for visualization, recalculated in Law2_ScGeom_CpmPhys_Cpm at every iteration */
-		// Fn and Fs are also stored as Vector3r normalForce, shearForce in NormShearPhys 
-		Real omega = 0, Fn = 0, sigmaN, epsN = 0, relResidualStrength, kappaD = 0, epsNPl = 0;
-		Vector3r sigmaT, Fs, epsTPl, epsT;
-
 		static Real solveBeta(const Real c, const Real N);
 		Real computeDmgOverstress(Real dt);
 		Real computeViscoplScalingFactor(Real sigmaTNorm, Real sigmaTYield,Real dt);
@@ -157,7 +152,6 @@ class CpmPhys: public NormShearPhys {
 		void setRelResidualStrength(Real r);
 
 		virtual ~CpmPhys();
-		#define _ZERO_VECTOR3R(v) v = Vector3r::Zero()
 		YADE_CLASS_BASE_DOC_ATTRS_CTOR_PY(CpmPhys,NormShearPhys,"Representation of a single interaction of the Cpm type: storage for relevant parameters.\n\n Evolution of the contact is governed by :yref:`Law2_ScGeom_CpmPhys_Cpm`, that includes damage effects and chages of parameters inside CpmPhys. See :yref:`cpm-model<CpmMat>` for details.",
 			((Real,E,NaN,,"normal modulus (stiffness / crossSection) [Pa]"))
 			((Real,G,NaN,,"shear modulus [Pa]"))
@@ -181,22 +175,21 @@ class CpmPhys: public NormShearPhys {
 			((int,damLaw,1,,"Law for softening part of uniaxial tension. 0 for linear, 1 for exponential (default)"))
 			//((Real,epsPlSum,0,,"cummulative shear plastic strain measure (scalar) on this contact"))
 			((bool,isCohesive,false,,"if not cohesive, interaction is deleted when distance is greater than zero."))
+			// Fn and Fs are also stored as Vector3r normalForce, shearForce in NormShearPhys
+			((Real,omega,0,Attr::readonly,"Damage internal variable |yupdate|"))
+			((Real,Fn,0,Attr::readonly,"Magnitude of normal force |yupdate|"))
+			((Vector3r,Fs,Vector3r::Zero(),Attr::readonly,"Magnitude of shear force |yupdate|"))
+			((Real,epsN,0,Attr::readonly,"Current normal strain |yupdate|"))
+			((Vector3r,epsT,Vector3r::Zero(),Attr::readonly,"Current shear strain |yupdate|"))
+			((Real,sigmaN,0,Attr::readonly,"Current normal stress |yupdate|"))
+			((Vector3r,sigmaT,Vector3r::Zero(),Attr::readonly,"Current shear stress |yupdate|"))
+			((Real,kappaD,0,Attr::readonly,"Up to now maximum normal strain (semi-norm), non-decreasing in time |yupdate|"))
+			((Real,epsNPl,0,Attr::readonly,"normal plastic strain (initially zero) |yupdate|"))
+			((Vector3r,epsTPl,Vector3r::Zero(),Attr::readonly,"shear plastic strain (initially zero) |yupdate|"))
+			((Real,relResidualStrength,1,Attr::readonly,"Relative residual strength |yupdate|"))
 			, // ctors
 			createIndex();
-			epsN = 0;
-			_ZERO_VECTOR3R(epsT); _ZERO_VECTOR3R(Fs); _ZERO_VECTOR3R(epsTPl);
 			,
-			.def_readonly("omega",&CpmPhys::omega,"Damage internal variable |yupdate|")
-			.def_readonly("Fn",&CpmPhys::Fn,"Magnitude of normal force |yupdate|")
-			.def_readonly("Fs",&CpmPhys::Fs,"Magnitude of shear force |yupdate|")
-			.def_readonly("epsN",&CpmPhys::epsN,"Current normal strain |yupdate|")
-			.def_readonly("epsT",&CpmPhys::epsT,"Current shear strain |yupdate|")
-			.def_readonly("sigmaN",&CpmPhys::sigmaN,"Current normal stress |yupdate|")
-			.def_readonly("sigmaT",&CpmPhys::sigmaT,"Current shear stress |yupdate|")
-			.def_readonly("kappaD",&CpmPhys::kappaD,"Up to now maximum normal strain (semi-norm), non-decreasing in time |yupdate|")
-			.def_readonly("epsNPl",&CpmPhys::epsNPl,"normal plastic strain (initially zero) |yupdate|")
-			.def_readonly("epsTPl",&CpmPhys::epsTPl,"shear plastic strain (initially zero) |yupdate|")
-			.def_readonly("relResidualStrength",&CpmPhys::relResidualStrength,"Relative residual strength |yupdate|")
 			.def_readonly("cummBetaIter",&CpmPhys::cummBetaIter,"Cummulative number of iterations inside CpmMat::solveBeta (for debugging).")
 			.def_readonly("cummBetaCount",&CpmPhys::cummBetaCount,"Cummulative number of calls of CpmMat::solveBeta (for debugging).")
 			.def("funcG",&CpmPhys::funcG,(py::arg("kappaD"),py::arg("epsCrackOnset"),py::arg("epsFracture"),py::arg("neverDamage")=false,py::arg("damLaw")=1),"Damage evolution law, evaluating the $\\omega$ parameter. $\\kappa_D$ is historically maximum strain, *epsCrackOnset* ($\\varepsilon_0$) = :yref:`CpmPhys.epsCrackOnset`, *epsFracture* = :yref:`CpmPhys.epsFracture`; if *neverDamage* is ``True``, the value returned will always be 0 (no damage). TODO")
@@ -206,7 +199,6 @@ class CpmPhys: public NormShearPhys {
 			.def("setDamage",&CpmPhys::setDamage,"TODO")
 			.def("setRelResidualStrength",&CpmPhys::setRelResidualStrength,"TODO")
 		);
-		#undef _ZERO_VECTOR3R
 	DECLARE_LOGGER;
 	REGISTER_CLASS_INDEX(CpmPhys,NormShearPhys);
 };
-- 
2.43.0


From 92657c6aef7ad5b7ff25d96ed41652834726de9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:27 +0000
Subject: [PATCH 64/84] fix: coefficients of bubble contacts were not saved
 (NaN or arbitrary forces after loading)

---
 pkg/dem/BubbleMat.cpp |  2 +-
 pkg/dem/BubbleMat.hpp | 10 ++--------
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/pkg/dem/BubbleMat.cpp b/pkg/dem/BubbleMat.cpp
index 0c8ba32..899c6b8 100644
--- a/pkg/dem/BubbleMat.cpp
+++ b/pkg/dem/BubbleMat.cpp
@@ -68,8 +68,8 @@ bool Law2_ScGeom_BubblePhys_Bubble::go(shared_ptr<IGeom>& _geom, shared_ptr<IPhy
 		return false;
 	}
 	
+	const Real c1 = 2*Mathr::PI*surfaceTension;
 	if (I->isFresh(scene)) {
-		c1 = 2*Mathr::PI*surfaceTension;
 		phys->rAvg = .5*(geom->refR1 + geom->refR2);
 		phys->computeCoeffs(pctMaxForce,surfaceTension,c1);
 	}
diff --git a/pkg/dem/BubbleMat.hpp b/pkg/dem/BubbleMat.hpp
index 096beed..2f736b3 100644
--- a/pkg/dem/BubbleMat.hpp
+++ b/pkg/dem/BubbleMat.hpp
@@ -24,10 +24,6 @@ REGISTER_SERIALIZABLE(BubbleMat);
 
 /********************** BubblePhys ****************************/
 class BubblePhys : public IPhys {
-	private:
-
-	Real coeffA,coeffB; //Coefficents for artificial curve
-  
 	public:
 
 	void computeCoeffs(Real pctMaxForce,Real surfaceTension, Real c1);
@@ -42,6 +38,8 @@ class BubblePhys : public IPhys {
 		((Real,Dmax,NaN,,"Maximum penetrationDepth of the bubbles before the force displacement curve changes to an artificial exponential curve. Setting this value will have no effect. See Law2_ScGeom_BubblePhys_Bubble::pctMaxForce for more information"))
 		((Real,newtonIter,50,,"Maximum number of force iterations allowed"))
 		((Real,newtonTol,1e-6,,"Convergence criteria for force iterations"))
+		((Real,coeffA,NaN,Attr::readonly,"Coefficient of the artificial exponential curve, see :yref:`Dmax<BubblePhys.Dmax>`"))
+		((Real,coeffB,NaN,Attr::readonly,"Exponent of the artificial exponential curve, see :yref:`Dmax<BubblePhys.Dmax>`"))
 		,
 		createIndex();
 		,
@@ -69,10 +67,6 @@ REGISTER_SERIALIZABLE(Ip2_BubbleMat_BubbleMat_BubblePhys);
 
 /********************** Law2_ScGeom_BubblePhys_Bubble ****************************/
 class Law2_ScGeom_BubblePhys_Bubble : public LawFunctor{
-	private:
-	  
-	  Real c1; //Coeff used for many contacts
-  
 	public:
 	virtual bool go(shared_ptr<IGeom>& _geom, shared_ptr<IPhys>& _phys, Interaction* interaction);
 	FUNCTOR2D(GenericSpheresContact,BubblePhys);
-- 
2.43.0


From a5d596770b6d482f808e09eec744a0cd6f7347b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:58 +0000
Subject: [PATCH 65/84] fix: InsertionSortCollider read freed bounds after the
 number of bodies decreased

---
 pkg/common/InsertionSortCollider.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/common/InsertionSortCollider.cpp b/pkg/common/InsertionSortCollider.cpp
index 8d98727..d2608e6 100644
--- a/pkg/common/InsertionSortCollider.cpp
+++ b/pkg/common/InsertionSortCollider.cpp
@@ -213,7 +213,7 @@ void InsertionSortCollider::action(){
 			LOG_DEBUG("Resize bounds containers from "<<BBsize<<" to "<<nBodies*2<<", will std::sort.");
 			// bodies deleted; clear the container completely, and do as if all bodies were added (rather slow…)
 			// future possibility: insertion sort with such operator that deleted bodies would all go to the end, then just trim bounds
-			if(2*nBodies<BBsize){ for(int i=0; i<3; i++) BB[i].vec.clear(); }
+			if(2*nBodies<BBsize){ for(int i=0; i<3; i++) BB[i].vec.clear(); BBsize=0; }
 			// more than 100 bodies was added, do initial sort again
 			// maybe: should rather depend on ratio of added bodies to those already present...?
 			if(2*nBodies-BBsize>200 || BBsize==0) doInitSort=true;
-- 
2.43.0


From 0dd08dcec2e9e54932e290725cae5eced4e269e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:32 +0000
Subject: [PATCH 66/84] fix: InsertionSortCollider.allowBiggerThanPeriod:
 initial sort missed contacts with bodies larger than the period

---
 pkg/common/InsertionSortCollider.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/common/InsertionSortCollider.cpp b/pkg/common/InsertionSortCollider.cpp
index d2608e6..dde398c 100644
--- a/pkg/common/InsertionSortCollider.cpp
+++ b/pkg/common/InsertionSortCollider.cpp
@@ -386,9 +386,11 @@ void InsertionSortCollider::action(){
 					if(!(V[i].flags.isMin && V[i].flags.hasBB)) continue;
 					const Body::id_t& iid=V[i].id;
 					// we might wrap over the periodic boundary here; that's why the condition is different from the aperiodic case
-					for(long j=V.norm(i+1); V[j].id!=iid; j=V.norm(j+1)){
+					// bodies spanning over the whole cell (see allowBiggerThanPeriod) meet all others, wherever their upper bound is wrapped
+					const bool spansCell=(maxima[3*iid+sortAxis]-minima[3*iid+sortAxis])>=V.cellDim;
+					for(long j=V.norm(i+1); spansCell ? (j!=i) : (V[j].id!=iid); j=V.norm(j+1)){
 						const Body::id_t& jid=V[j].id;
-						if(!(V[j].flags.isMin && V[j].flags.hasBB)) continue;
+						if(jid==iid || !(V[j].flags.isMin && V[j].flags.hasBB)) continue;
 						handleBoundInversionPeri(iid,jid,interactions,scene);
 					}
 				}
-- 
2.43.0


From 6d78274d376727eac6977a7c440c2b5db6c459f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:07 +0000
Subject: [PATCH 67/84] fix: InsertionSortCollider missed contacts of bodies
 added during a periodic simulation, across the cell boundary

---
 pkg/common/InsertionSortCollider.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/common/InsertionSortCollider.cpp b/pkg/common/InsertionSortCollider.cpp
index dde398c..409ca81 100644
--- a/pkg/common/InsertionSortCollider.cpp
+++ b/pkg/common/InsertionSortCollider.cpp
@@ -216,7 +216,8 @@ void InsertionSortCollider::action(){
 			if(2*nBodies<BBsize){ for(int i=0; i<3; i++) BB[i].vec.clear(); BBsize=0; }
 			// more than 100 bodies was added, do initial sort again
 			// maybe: should rather depend on ratio of added bodies to those already present...?
-			if(2*nBodies-BBsize>200 || BBsize==0) doInitSort=true;
+			// with periodic boundaries, new bounds may get between those of a body across the boundary without any inversion telling that they overlap
+			if(2*nBodies-BBsize>200 || BBsize==0 || periodic) doInitSort=true;
 			assert((BBsize%2)==0);
 			for(int i=0; i<3; i++){
 				BB[i].vec.reserve(2*nBodies);
-- 
2.43.0


From 79bbd33523547a5d1441d4dba14aa17c39e74ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:40 +0000
Subject: [PATCH 68/84] fix: NewtonIntegrator.densityScaling was lost by
 saving, and could not be set without a time-stepper

---
 pkg/dem/NewtonIntegrator.cpp | 2 +-
 pkg/dem/NewtonIntegrator.hpp | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/dem/NewtonIntegrator.cpp b/pkg/dem/NewtonIntegrator.cpp
index c7f376d..023979a 100644
--- a/pkg/dem/NewtonIntegrator.cpp
+++ b/pkg/dem/NewtonIntegrator.cpp
@@ -284,11 +284,11 @@ bool NewtonIntegrator::get_densityScaling() {
 }
 
 void NewtonIntegrator::set_densityScaling(bool dsc) {
+	densityScaling=dsc;
 	FOREACH(const shared_ptr<Engine> e, Omega::instance().getScene()->engines) {
 		GlobalStiffnessTimeStepper* ts=dynamic_cast<GlobalStiffnessTimeStepper*>(e.get());
 		if (ts) {
 			ts->densityScaling=dsc;
-			densityScaling=dsc;
 			LOG_WARN("GlobalStiffnessTimeStepper found in O.engines and adjusted to match this setting. Revert in the timestepper if you don't want the scaling adjusted automatically.");
 			return;
 		}
diff --git a/pkg/dem/NewtonIntegrator.hpp b/pkg/dem/NewtonIntegrator.hpp
index e8b896e..41eab86 100644
--- a/pkg/dem/NewtonIntegrator.hpp
+++ b/pkg/dem/NewtonIntegrator.hpp
@@ -48,7 +48,6 @@ class NewtonIntegrator : public FieldApplier{
 	Vector3r dSpin;
 
 	public:
-		bool densityScaling;// internal for density scaling
 		Real updatingDispFactor;//(experimental) Displacement factor used to trigger bound update: the bound is updated only if updatingDispFactor*disp>sweepDist when >0, else all bounds are updated.
 		// function to save maximum velocity, for the verlet-distance optimization
 		void saveMaximaVelocity(const Body::id_t& id, State* state);
@@ -77,10 +76,10 @@ class NewtonIntegrator : public FieldApplier{
 		((int,kinEnergyIx,-1,(Attr::hidden|Attr::noSave),"Index for kinetic energy in scene->energies."))
 		((int,kinEnergyTransIx,-1,(Attr::hidden|Attr::noSave),"Index for translational kinetic energy in scene->energies."))
 		((int,kinEnergyRotIx,-1,(Attr::hidden|Attr::noSave),"Index for rotational kinetic energy in scene->energies."))
+		((bool,densityScaling,false,Attr::hidden,"internal for density scaling, see the python property of the same name"))
 		((int,mask,-1,,"If mask defined and the bitwise AND between mask and body`s groupMask gives 0, the body will not move/rotate. Velocities and accelerations will be calculated not paying attention to this parameter."))
 		,
 		/*ctor*/
-			densityScaling=false;
 			#ifdef YADE_OPENMP
 				threadMaxVelocitySq.resize(omp_get_max_threads()); syncEnsured=false;
 			#endif
-- 
2.43.0


From 5dbf7d3035e74999584950474160a152b94d0efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:40 +0000
Subject: [PATCH 69/84] fix: GlobalStiffnessTimeStepper crashed on free clumps
 with density scaling

---
 pkg/dem/GlobalStiffnessTimeStepper.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/GlobalStiffnessTimeStepper.cpp b/pkg/dem/GlobalStiffnessTimeStepper.cpp
index 6f71cda..a860412 100644
--- a/pkg/dem/GlobalStiffnessTimeStepper.cpp
+++ b/pkg/dem/GlobalStiffnessTimeStepper.cpp
@@ -47,8 +47,10 @@ void GlobalStiffnessTimeStepper::findTimeStepFromBody(const shared_ptr<Body>& bo
 				shared_ptr<ElastMat> ebp=YADE_PTR_DYN_CAST<ElastMat>(body->material);
 				shared_ptr<Sphere> s=YADE_PTR_DYN_CAST<Sphere>(body->shape);
 				if(!ebp || !s) dt=defaultDt;
-				Real density=body->state->mass/((4/3.)*Mathr::PI*pow(s->radius,3));
-				dt=s->radius/sqrt(ebp->young/density);
+				else {
+					Real density=body->state->mass/((4/3.)*Mathr::PI*pow(s->radius,3));
+					dt=s->radius/sqrt(ebp->young/density);
+				}
 // 				dt=defaultDt;
 			} else {
 				dt=defaultDt;
-- 
2.43.0


From 924ca2e19d11b3081be4401408f8866e9e421acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:01 +0000
Subject: [PATCH 70/84] fix: GlobalStiffnessTimeStepper.viscEl: uninitialized
 time step of bodies without contacts, and unsized viscosities

---
 pkg/dem/GlobalStiffnessTimeStepper.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/dem/GlobalStiffnessTimeStepper.cpp b/pkg/dem/GlobalStiffnessTimeStepper.cpp
index a860412..e446c73 100644
--- a/pkg/dem/GlobalStiffnessTimeStepper.cpp
+++ b/pkg/dem/GlobalStiffnessTimeStepper.cpp
@@ -39,7 +39,7 @@ void GlobalStiffnessTimeStepper::findTimeStepFromBody(const shared_ptr<Body>& bo
 			}
 		}
 	}
-	Real dt; 
+	Real dt=Mathr::MAX_REAL; // bodies without stiffness do not limit the time step
 	if(!sdec || stiffness==Vector3r::Zero()){
 		// No interaction on this body, return. If using density scaline fallback to PWaveTimestep-like equation for dt.
 		if (densityScaling) {
@@ -152,9 +152,10 @@ void GlobalStiffnessTimeStepper::computeStiffnesses(Scene* rb){
 	if(size<rb->bodies->size()){
 		size=rb->bodies->size();
 		stiffnesses.resize(size); Rstiffnesses.resize(size);
-		if (viscEl == true){
-			viscosities.resize(size); Rviscosities.resize(size);
-			}
+	}
+	// viscEl may be set later than the stiffnesses were sized
+	if (viscEl == true && viscosities.size()<size){
+		viscosities.resize(size); Rviscosities.resize(size);
 	}
 	/* reset stored values */
 	memset(& stiffnesses[0],0,sizeof(Vector3r)*size);
-- 
2.43.0


From f235c8cf6648f4353cd6c68655e863f8a66f40a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:01 +0000
Subject: [PATCH 71/84] fix: GlobalStiffnessTimeStepper.maxDt: negative value
 meaning no limit gave a negative time step

---
 pkg/dem/GlobalStiffnessTimeStepper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/GlobalStiffnessTimeStepper.cpp b/pkg/dem/GlobalStiffnessTimeStepper.cpp
index e446c73..bbd47d6 100644
--- a/pkg/dem/GlobalStiffnessTimeStepper.cpp
+++ b/pkg/dem/GlobalStiffnessTimeStepper.cpp
@@ -137,7 +137,7 @@ void GlobalStiffnessTimeStepper::computeTimeStep(Scene* ncb)
 	}
 	if(densityScaling) (newDt=targetDt);
 	if(computedSomething || densityScaling){
-		previousDt = min ( min(newDt , maxDt), 1.05*previousDt );// at maximum, dt will be multiplied by 1.05 in one iterration, this is to prevent brutal switches from 0.000... to 1 in some computations
+		previousDt = min ( maxDt>0 ? min(newDt , maxDt) : newDt, 1.05*previousDt );// at maximum, dt will be multiplied by 1.05 in one iterration, this is to prevent brutal switches from 0.000... to 1 in some computations
 		scene->dt=previousDt;
 		computedOnce = true;}
 	else if (!computedOnce) scene->dt=defaultDt;
-- 
2.43.0


From c580f3a6c0532dc77d1055e81e92165008e46f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:02 +0000
Subject: [PATCH 72/84] fix: Ip2_FrictMat_FrictViscoMat_FrictViscoPhys read
 beyond the material if the viscous body came first

---
 pkg/dem/FrictViscoPM.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/FrictViscoPM.cpp b/pkg/dem/FrictViscoPM.cpp
index a0852f7..a5ee577 100644
--- a/pkg/dem/FrictViscoPM.cpp
+++ b/pkg/dem/FrictViscoPM.cpp
@@ -86,7 +86,10 @@ void Ip2_FrictMat_FrictViscoMat_FrictViscoPhys::go(const shared_ptr<Material>& b
 
 	if(interaction->phys) return;
 	const shared_ptr<FrictMat>& mat1 = YADE_PTR_CAST<FrictMat>(b1);
-	const shared_ptr<FrictViscoMat>& mat2 = YADE_PTR_CAST<FrictViscoMat>(b2);
+	const shared_ptr<FrictMat>& mat2 = YADE_PTR_CAST<FrictMat>(b2);
+	// materials come in the order of the bodies, the viscous one may be either of them
+	const FrictViscoMat* viscoMat = dynamic_cast<FrictViscoMat*>(b2.get());
+	if (!viscoMat) viscoMat = YADE_CAST<FrictViscoMat*>(b1.get());
 	interaction->phys = shared_ptr<FrictViscoPhys>(new FrictViscoPhys());
 	const shared_ptr<FrictViscoPhys>& contactPhysics = YADE_PTR_CAST<FrictViscoPhys>(interaction->phys);
 	Real Ea 	= mat1->young;
@@ -112,7 +115,7 @@ void Ip2_FrictMat_FrictViscoMat_FrictViscoPhys::go(const shared_ptr<Material>& b
 	/************************/
 	/* DAMPING COEFFICIENTS */
 	/************************/
-	Real betanb = mat2->betan;
+	Real betanb = viscoMat->betan;
 	
 	// inclusion of local viscous damping
 	if (betanb!=0){
-- 
2.43.0


From ac247ba4bca01141f7fd615583f8fa99cde4c2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:02 +0000
Subject: [PATCH 73/84] fix: InsertionSortCollider missed contacts after
 NewtonIntegrator was replaced in O.engines

---
 pkg/common/InsertionSortCollider.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/common/InsertionSortCollider.cpp b/pkg/common/InsertionSortCollider.cpp
index 409ca81..173b716 100644
--- a/pkg/common/InsertionSortCollider.cpp
+++ b/pkg/common/InsertionSortCollider.cpp
@@ -175,6 +175,10 @@ vector<Body::id_t> InsertionSortCollider::probeBoundingVolume(const Bound& bv){
 		// activated if number of bodies changes (hence need to refresh collision information)
 		// or the time of scheduled run already came, or we were never scheduled yet
 		if(!strideActive) { return true; }
+		// the integrator may have been replaced in O.engines; the old one does not follow the bodies any longer
+		if(newton && std::find(scene->engines.begin(),scene->engines.end(),newton)==scene->engines.end()){
+			FOREACH(const shared_ptr<Engine>& e, scene->engines) if(dynamic_cast<NewtonIntegrator*>(e.get())){ newton.reset(); break; }
+		}
 		if(!newton) { return true; }
 		fastestBodyMaxDist=newton->maxVelocitySq;
 		if(fastestBodyMaxDist>=1 || fastestBodyMaxDist==0) {  return true; }
-- 
2.43.0


From e1de81dd8be9711c25a5227848d6aadb911c9986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:59 +0000
Subject: [PATCH 74/84] fix: InteractionLoop used old functors for existing
 contacts after functors or the loop were replaced

---
 pkg/common/InteractionLoop.cpp | 27 +++++++++++++++++++++++++++
 pkg/common/InteractionLoop.hpp |  6 ++++++
 2 files changed, 33 insertions(+)

diff --git a/pkg/common/InteractionLoop.cpp b/pkg/common/InteractionLoop.cpp
index eb4cc18..d843099 100644
--- a/pkg/common/InteractionLoop.cpp
+++ b/pkg/common/InteractionLoop.cpp
@@ -19,6 +19,30 @@ void InteractionLoop::pyHandleCustomCtorArgs(boost::python::tuple& t, boost::pyt
 	t=boost::python::tuple(); // empty the args; not sure if this is OK, as there is some refcounting in raw_constructor code
 }
 
+template<class FunctorT>
+static void replaceBySameClass(shared_ptr<FunctorT>& cached, const vector<shared_ptr<FunctorT> >& functors){
+	if(!cached) return;
+	for(const auto& f : functors) if(f->getClassName()==cached->getClassName()) cached=f;
+}
+
+void InteractionLoop::updateFunctorCaches(){
+	if(usedGeomFunctors==geomDispatcher->functors && usedPhysFunctors==physDispatcher->functors && usedLawFunctors==lawDispatcher->functors) return;
+	usedGeomFunctors=geomDispatcher->functors; usedPhysFunctors=physDispatcher->functors; usedLawFunctors=lawDispatcher->functors;
+	for(const auto& I : *scene->interactions){
+		if(!I->isReal()){
+			I->functorCache.geom=nullptr; I->functorCache.phys=nullptr; I->functorCache.constLaw=nullptr;
+			I->functorCache.geomExists=true;
+			continue;
+		}
+		// geom and phys exist already; functors of another class might not be able to handle them
+		replaceBySameClass(I->functorCache.geom,geomDispatcher->functors);
+		replaceBySameClass(I->functorCache.phys,physDispatcher->functors);
+		bool swap=false;
+		shared_ptr<LawFunctor> law=lawDispatcher->getFunctor2D(I->geom,I->phys,swap);
+		if(law) I->functorCache.constLaw=law;
+	}
+}
+
 void InteractionLoop::action(){
 	// update Scene* of the dispatchers
 	lawDispatcher->scene=scene;
@@ -30,6 +54,9 @@ void InteractionLoop::action(){
 	physDispatcher->updateScenePtr();
 	lawDispatcher->updateScenePtr();
 	
+	// functors may have been changed, or they are those of another loop
+	updateFunctorCaches();
+
 	const Body::id_t& subDIdx = scene->subdomain;
 
 	/*
diff --git a/pkg/common/InteractionLoop.hpp b/pkg/common/InteractionLoop.hpp
index a7b65e4..5e494f5 100644
--- a/pkg/common/InteractionLoop.hpp
+++ b/pkg/common/InteractionLoop.hpp
@@ -23,6 +23,12 @@ class InteractionLoop: public GlobalEngine {
 		list<idPair> eraseAfterLoopIds;
 		void eraseAfterLoop(Body::id_t id1,Body::id_t id2){ eraseAfterLoopIds.push_back(idPair(id1,id2)); }
 	#endif
+	// functors used in the last step
+	vector<shared_ptr<IGeomFunctor> > usedGeomFunctors;
+	vector<shared_ptr<IPhysFunctor> > usedPhysFunctors;
+	vector<shared_ptr<LawFunctor> > usedLawFunctors;
+	// update functors cached by interactions, if functors of the dispatchers are not those of the last step
+	void updateFunctorCaches();
 	public:
 		virtual void pyHandleCustomCtorArgs(boost::python::tuple& t, boost::python::dict& d);
 		virtual void action();
-- 
2.43.0


From af0546e892815a17c1bcd1fe3cb464165ebcc9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:59 +0000
Subject: [PATCH 75/84] fix: LudingPhys shared the dispatch index of FrictPhys,
 contacts with FrictPhys were handled by the law of Luding

---
 pkg/dem/LudingPM.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/dem/LudingPM.hpp b/pkg/dem/LudingPM.hpp
index f81372f..0fb6dc4 100644
--- a/pkg/dem/LudingPM.hpp
+++ b/pkg/dem/LudingPM.hpp
@@ -42,6 +42,7 @@ class LudingPhys : public FrictPhys{
 		((Real,G0,NaN,,"Viscous damping")),
 		createIndex();
 	)
+	REGISTER_CLASS_INDEX(LudingPhys,FrictPhys);
 };
 REGISTER_SERIALIZABLE(LudingPhys);
 
-- 
2.43.0


From efac52d3df1486073a477694f311820de5b30d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:59 +0000
Subject: [PATCH 76/84] fix: MortarPhys was registered for dispatch with
 another base class than its own

---
 pkg/dem/MortarMat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/MortarMat.hpp b/pkg/dem/MortarMat.hpp
index 7312190..3a3ab98 100644
--- a/pkg/dem/MortarMat.hpp
+++ b/pkg/dem/MortarMat.hpp
@@ -60,7 +60,7 @@ class MortarPhys: public FrictPhys {
 			.def("failureCondition",&MortarPhys::failureCondition,"Failure condition from normal stress and norm of shear stress (false=elastic, true=damaged)")
 		);
 		DECLARE_LOGGER;
-		REGISTER_CLASS_INDEX(MortarPhys,NormShearPhys);
+		REGISTER_CLASS_INDEX(MortarPhys,FrictPhys);
 };
 REGISTER_SERIALIZABLE(MortarPhys);
 
-- 
2.43.0


From 734c20be39be157c302e6feafdc62f269484a852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:59 +0000
Subject: [PATCH 77/84] fix: functor found for derived types depended on the
 order of lookups, and ambiguous dispatch raised only once

---
 lib/multimethods/DynLibDispatcher.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/multimethods/DynLibDispatcher.hpp b/lib/multimethods/DynLibDispatcher.hpp
index ae09e32..def8c7c 100644
--- a/lib/multimethods/DynLibDispatcher.hpp
+++ b/lib/multimethods/DynLibDispatcher.hpp
@@ -104,6 +104,7 @@ class DynLibDispatcher
 	MatrixType callBacks;        // multidimensional matrix that stores functors ( 1D, 2D, 3D, 4D, ....)
 	MatrixIntType callBacksInfo; // multidimensional matrix for extra information about functors in the matrix
 	                             // currently used to remember if it is reversed functor
+	MatrixIntType callBacksInherited; // non-zero for functors found for base classes and only remembered in the matrix; they must not be candidates for other types, else the result would depend on the order of lookups (2D only)
 
 	public:
 		DynLibDispatcher()
@@ -116,6 +117,7 @@ class DynLibDispatcher
 		void clearMatrix() {
 			callBacks.clear();
 			callBacksInfo.clear();
+			callBacksInherited.clear();
 		}
 
 		shared_ptr<Executor> getExecutor(shared_ptr<BaseClass1>& arg1){
@@ -230,15 +232,19 @@ class DynLibDispatcher
 
 			callBacks.resize( maxCurrentIndex1+1 );		// resizing callBacks table
 			callBacksInfo.resize( maxCurrentIndex1+1 );
+			callBacksInherited.resize( maxCurrentIndex1+1 );
 			for( Iterator2 ci = callBacks.begin() ; ci != callBacks.end() ; ++ci )
 				ci->resize(maxCurrentIndex2+1);
 			for( IteratorInfo2 cii = callBacksInfo.begin() ; cii != callBacksInfo.end() ; ++cii )
 				cii->resize(maxCurrentIndex2+1);
+			for( IteratorInfo2 cii = callBacksInherited.begin() ; cii != callBacksInherited.end() ; ++cii )
+				cii->resize(maxCurrentIndex2+1);
 	
 			if( typeid(BaseClass1) == typeid(BaseClass2) ) // both base classes are the same
 			{
 				callBacks	[index2][index1] = executor;
 				callBacks	[index1][index2] = executor;
+				callBacksInherited	[index2][index1] = callBacksInherited[index1][index2] = 0;
 				
 				string order		= baseClassName1 + " " + baseClassName2;
 				string reverseOrder	= baseClassName2 + " " + baseClassName1;
@@ -261,6 +267,7 @@ class DynLibDispatcher
 			{
 				callBacks	[index1][index2] = executor;
 				callBacksInfo	[index1][index2] = 0;
+				callBacksInherited	[index1][index2] = 0;
 			}
 		}
 		
@@ -339,18 +346,21 @@ class DynLibDispatcher
 					if(ix2<0) maxDp2=dp2;
 					if(ix1<0 || ix2<0) continue; // hierarchy height exceeded in either dimension
 					distTooBig=false;
-					if(callBacks[ix1][ix2]){
+					if(callBacks[ix1][ix2] && !callBacksInherited[ix1][ix2]){
 						if(foundIx1!=-1 && callBacks[foundIx1][foundIx2]!=callBacks[ix1][ix2]){ // we found a callback, but there already was one at this distance and it was different from the current one
 							cerr<<__FILE__<<":"<<__LINE__<<": ambiguous 2d dispatch ("<<"arg1="<<base1->getClassName()<<", arg2="<<base2->getClassName()<<", distance="<<dist<<"), dispatch matrix:"<<endl;
 							dumpDispatchMatrix2D(cerr,"AMBIGUOUS: "); throw runtime_error("Ambiguous dispatch.");
 						}
 						foundIx1=ix1; foundIx2=ix2;
-						callBacks[index1][index2]=callBacks[ix1][ix2];
-						callBacksInfo[index1][index2]=callBacksInfo[ix1][ix2];
 						_DISP_TRACE("Found callback ["<<ix1<<"]["<<ix2<<"] → "<<callBacks[ix1][ix2]->getClassName());
 					}
 				}
-				if(foundIx1!=-1) return true;
+				if(foundIx1!=-1){
+					callBacks[index1][index2]=callBacks[foundIx1][foundIx2];
+					callBacksInfo[index1][index2]=callBacksInfo[foundIx1][foundIx2];
+					callBacksInherited[index1][index2]=1;
+					return true;
+				}
 				if(distTooBig){
 					_DISP_TRACE("Undefined dispatch, dist="<<dist);
 					return false; /* undefined dispatch */
-- 
2.43.0


From 1d2478786d6aff069d674e7fabd0f2b60092b703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:59 +0000
Subject: [PATCH 78/84] fix: dispatch by one type read beyond the end of
 callBacksInfo

---
 lib/multimethods/DynLibDispatcher.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/multimethods/DynLibDispatcher.hpp b/lib/multimethods/DynLibDispatcher.hpp
index def8c7c..7afbbb2 100644
--- a/lib/multimethods/DynLibDispatcher.hpp
+++ b/lib/multimethods/DynLibDispatcher.hpp
@@ -199,6 +199,7 @@ class DynLibDispatcher
 			
 			int maxCurrentIndex = base->getMaxCurrentlyUsedClassIndex();
 			callBacks.resize( maxCurrentIndex+1 );	// make sure that there is a place for new Functor
+			callBacksInfo.resize( maxCurrentIndex+1 );
 
 			callBacks[index] = executor;
 		};
-- 
2.43.0


From 2d8a1f66a982d26cf74c1a5a823ac06e90821346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:34 +0000
Subject: [PATCH 79/84] fix: Ig2_Box_Sphere_ScGeom: contact point was in
 another period if the centre of the sphere is inside the box

---
 pkg/dem/Ig2_Box_Sphere_ScGeom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp b/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp
index 24a1884..57b5520 100644
--- a/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp
+++ b/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp
@@ -81,8 +81,8 @@ bool Ig2_Box_Sphere_ScGeom::go(const shared_ptr<Shape>& cm1, const shared_ptr<Sh
 		 *
 		 *
 		 */
-		pt1 = se32.position+normal*minCBoxDist;
-		pt2 = se32.position-normal*s->radius;
+		pt1 = se32.position+shift2+normal*minCBoxDist;
+		pt2 = se32.position+shift2-normal*s->radius;
 		Vector3r normal = pt1-pt2; normal.normalize();
 		bool isNew=!c->geom;
 		if (isNew) scm = shared_ptr<ScGeom>(new ScGeom());
-- 
2.43.0


From 816ac19b96ee3624e0ac21d490a602bda72359bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:34 +0000
Subject: [PATCH 80/84] fix: Ig2_Box_Sphere_ScGeom: rotation of box and sphere
 together gave a shear force if the centre of the sphere is inside the box

---
 pkg/dem/Ig2_Box_Sphere_ScGeom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp b/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp
index 57b5520..f582aff 100644
--- a/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp
+++ b/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp
@@ -96,7 +96,7 @@ bool Ig2_Box_Sphere_ScGeom::go(const shared_ptr<Shape>& cm1, const shared_ptr<Sh
 		scm->radius1 = s->radius;
 		scm->radius2 = s->radius;
 		c->geom = scm;
-		scm->precompute(state1,state2,scene,c,normal,isNew,shift2,true);
+		scm->precompute(state1,state2,scene,c,normal,isNew,shift2,false/*avoidGranularRatcheting only for sphere-sphere*/);
 	} else { // outside
 		Vector3r cOnBox_box = boxAxisT*cOnBox_boxLocal; // projection of sphere's center on closest box surface - relative to box's origin, but GLOBAL orientation!
 		Vector3r cOnBox_sphere = cOnBox_box-relPos21; // same, but origin in sphere's center
-- 
2.43.0


From cc78675c5899d9f672e660051dae2ac700bfdebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:43 +0000
Subject: [PATCH 81/84] fix: spin of grid connections and chained cylinders in
 contact was multiplied by their squared length

---
 pkg/common/Cylinder.cpp | 8 ++++----
 pkg/common/Grid.cpp     | 6 +++---
 pkg/common/PFacet.cpp   | 2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/common/Cylinder.cpp b/pkg/common/Cylinder.cpp
index 1bcfbb3..5044004 100644
--- a/pkg/common/Cylinder.cpp
+++ b/pkg/common/Cylinder.cpp
@@ -175,7 +175,7 @@ bool Ig2_Sphere_ChainedCylinder_CylScGeom::go(	const shared_ptr<Shape>& cm1,
 		scm->fictiousState.vel = (1-scm->relPos)*cylinderSt->vel + scm->relPos*cylinderNext->state->vel;
 		scm->fictiousState.angVel =
 			((1-scm->relPos)*cylinderSt->angVel + scm->relPos*cylinderNext->state->angVel).dot(direction)*direction //twist part : interpolated
-			+ segment.cross(cylinderNext->state->vel - cylinderSt->vel);// non-twist part : defined from nodes velocities
+			+ segment.cross(cylinderNext->state->vel - cylinderSt->vel)/segment.squaredNorm();// non-twist part : defined from nodes velocities
 
 		if (dist>length) {
 			scm->penetrationDepth=sphere->radius+cylinder->radius-(cylinderSt->pos+segment-sphereSt->pos).norm();
@@ -346,7 +346,7 @@ bool Ig2_Sphere_ChainedCylinder_CylScGeom6D::go(	const shared_ptr<Shape>& cm1,
 		scm->fictiousState.vel = (1-scm->relPos)*cylinderSt->vel + scm->relPos*cylinderNext->state->vel;
 		scm->fictiousState.angVel =
 			((1-scm->relPos)*cylinderSt->angVel + scm->relPos*cylinderNext->state->angVel).dot(direction)*direction //twist part : interpolated
-			+ segment.cross(cylinderNext->state->vel - cylinderSt->vel);// non-twist part : defined from nodes velocities
+			+ segment.cross(cylinderNext->state->vel - cylinderSt->vel)/segment.squaredNorm();// non-twist part : defined from nodes velocities
 
 		if (dist>length) {
 			scm->penetrationDepth=sphere->radius+cylinder->radius-(cylinderSt->pos+segment-sphereSt->pos).norm();
@@ -500,10 +500,10 @@ bool Ig2_ChainedCylinder_ChainedCylinder_ScGeom6D::go(	const shared_ptr<Shape>&
 			scm->fictiousState2.vel = (1-m)*pChain2->vel + m*cylinderNext2->state->vel;
 			Vector3r direction = a/(a.norm());
 			scm->fictiousState1.angVel = ((1-k)*pChain1->angVel + k*cylinderNext1->state->angVel).dot(direction)*direction //twist part : interpolated
-			+ a.cross(cylinderNext1->state->vel - pChain1->vel);// non-twist part : defined from nodes velocities
+			+ a.cross(cylinderNext1->state->vel - pChain1->vel)/a.squaredNorm();// non-twist part : defined from nodes velocities
 			direction = b/(b.norm());
 			scm->fictiousState2.angVel = ((1-m)*pChain2->angVel + m*cylinderNext2->state->angVel).dot(direction)*direction //twist part : interpolated
-			+ b.cross(cylinderNext2->state->vel - pChain2->vel);// non-twist part : defined from nodes velocities
+			+ b.cross(cylinderNext2->state->vel - pChain2->vel)/b.squaredNorm();// non-twist part : defined from nodes velocities
 			scm->contactPoint = 0.5*(scm->fictiousState1.pos+scm->fictiousState2.pos);
 			normal= scm->fictiousState2.pos - scm->fictiousState1.pos;
 			normal=normal/(normal.norm());
diff --git a/pkg/common/Grid.cpp b/pkg/common/Grid.cpp
index 426e69d..6ba66f5 100644
--- a/pkg/common/Grid.cpp
+++ b/pkg/common/Grid.cpp
@@ -181,10 +181,10 @@ bool Ig2_GridConnection_GridConnection_GridCoGridCoGeom::go( const shared_ptr<Sh
 	scm->fictiousState2.vel = (1-m)*stNode21->vel + m*stNode22->vel;
 	Vector3r direction = a/(a.norm());
 	scm->fictiousState1.angVel = ((1-k)*stNode11->angVel + k*stNode12->angVel).dot(direction)*direction //twist part : interpolated
-	+ a.cross(stNode12->vel - stNode11->vel);// non-twist part : defined from nodes velocities
+	+ a.cross(stNode12->vel - stNode11->vel)/a.squaredNorm();// non-twist part : defined from nodes velocities
 	direction = b/(b.norm());
 	scm->fictiousState2.angVel = ((1-m)*stNode21->angVel + m*stNode22->angVel).dot(direction)*direction //twist part : interpolated
-	+ b.cross(stNode22->vel - stNode21->vel);// non-twist part : defined from nodes velocities
+	+ b.cross(stNode22->vel - stNode21->vel)/b.squaredNorm();// non-twist part : defined from nodes velocities
 	Vector3r normal= scm->fictiousState2.pos - scm->fictiousState1.pos;
 	normal/=normal.norm();
 	scm->contactPoint = scm->fictiousState1.pos + (scm->radius1-0.5*penetrationDepth)*normal;
@@ -400,7 +400,7 @@ bool Ig2_Sphere_GridConnection_ScGridCoGeom::go(	const shared_ptr<Shape>& cm1,
 	scm->fictiousState.vel = (1-relPos)*gridNo1St->vel + relPos*gridNo2St->vel;
 	scm->fictiousState.angVel =
 		((1-relPos)*gridNo1St->angVel + relPos*gridNo2St->angVel).dot(segt/len)*segt/len //twist part : interpolated
-		+ segt.cross(gridNo2St->vel - gridNo1St->vel);// non-twist part : defined from nodes velocities
+		+ segt.cross(gridNo2St->vel - gridNo1St->vel)/(len*len);// non-twist part : defined from nodes velocities
 	scm->precompute(state1,scm->fictiousState,scene,c,normal,isNew,shift2,true);//use sphere-sphere precompute (with a virtual sphere)
 	return true;
 }
diff --git a/pkg/common/PFacet.cpp b/pkg/common/PFacet.cpp
index c3062df..052f1f8 100644
--- a/pkg/common/PFacet.cpp
+++ b/pkg/common/PFacet.cpp
@@ -381,7 +381,7 @@ bool Ig2_Sphere_PFacet_ScGridCoGeom::go(	const shared_ptr<Shape>& cm1,
 					scm->fictiousState.vel = (1-relPos)*gridNo1St->vel + relPos*gridNo2St->vel;
 					scm->fictiousState.angVel =
 						((1-relPos)*gridNo1St->angVel + relPos*gridNo2St->angVel).dot(segt/len)*segt/len //twist part : interpolated
-						+ segt.cross(gridNo2St->vel - gridNo1St->vel);// non-twist part : defined from nodes velocities
+						+ segt.cross(gridNo2St->vel - gridNo1St->vel)/(len*len);// non-twist part : defined from nodes velocities
 					scm->precompute(state1,scm->fictiousState,scene,c,normal,isNew,shift2,true);//use sphere-sphere precompute (with a virtual sphere)
 					return true;
 				}
-- 
2.43.0


From b17bd35b0931a3f634457b2693f8a63e236e9dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:58 +0000
Subject: [PATCH 82/84] fix: labels of engines assigned during a step were not
 mapped to variables (or to the old engines)

---
 py/wrapper/yadeWrapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index 382a24b..7b5ec10 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -565,7 +565,7 @@ class pyOmega{
 				if(!m->label.empty()) { PyGILState_STATE gstate; gstate = PyGILState_Ensure(); PyRun_SimpleString(("__builtins__."+m->label+"=Omega().materials["+boost::lexical_cast<string>(m->id)+"]").c_str()); PyGILState_Release(gstate); }
 			}
 		#endif
-		FOREACH(const shared_ptr<Engine>& e, OMEGA.getScene()->engines){
+		FOREACH(const shared_ptr<Engine>& e, engines_get()/* those assigned during a step, if any */){
 			if(!e->label.empty()){
 				pyRunString("__builtins__."+e->label+"=Omega().labeledEngine('"+e->label+"')");
 			}
@@ -589,7 +589,7 @@ class pyOmega{
 		}
 	}
 	py::object labeled_engine_get(string label){
-		FOREACH(const shared_ptr<Engine>& e, OMEGA.getScene()->engines){
+		FOREACH(const shared_ptr<Engine>& e, engines_get()/* those assigned during a step, if any */){
 			#define _DO_FUNCTORS(functors,FunctorT){ FOREACH(const shared_ptr<FunctorT>& f, functors){ if(f->label==label) return py::object(f); }}
 			#define _TRY_DISPATCHER(DispatcherT) { DispatcherT* d=dynamic_cast<DispatcherT*>(e.get()); if(d){ _DO_FUNCTORS(d->functors,DispatcherT::FunctorType); } }
 			if(e->label==label){ return py::object(e); }
-- 
2.43.0


From e700916c0fbbea6c6fb368d395ab81e01c89b9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:00 +0000
Subject: [PATCH 83/84] fix: O.sceneToString failed with python3 (binary data
 returned as str)

Every distributed run and FEMxDEM start with O.sceneToString, whose result is
not valid unicode; return (and accept in stringToScene) bytes.
---
 py/wrapper/yadeWrapper.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index 7b5ec10..b6c47c6 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -698,13 +698,17 @@ class pyOmega{
 	shared_ptr<Scene> scene_get(){ return OMEGA.getScene(); }
 	void scene_set(const shared_ptr<Scene>& source){ Py_BEGIN_ALLOW_THREADS; reset(); Py_END_ALLOW_THREADS; assertScene(); OMEGA.setScene(source); }
 	
-	string sceneToString(){
+	py::object sceneToString(){ // bytes, since binary data are not valid unicode
 		ostringstream oss;
 		yade::ObjectIO::save<decltype(OMEGA.getScene()),boost::archive::binary_oarchive>(oss,"scene",OMEGA.getScene());
 		oss.flush();
-		return oss.str();
+		const string str=oss.str();
+		return py::object(py::handle<>(PyBytes_FromStringAndSize(str.data(),str.size())));
 	}
-	void stringToScene(const string &sstring, string mark=""){
+	void stringToScene(const py::object& bytes, string mark=""){
+		char* buf; Py_ssize_t len;
+		if(PyBytes_AsStringAndSize(bytes.ptr(),&buf,&len)<0) py::throw_error_already_set();
+		const string sstring(buf,len);
 		Py_BEGIN_ALLOW_THREADS; OMEGA.stop(); Py_END_ALLOW_THREADS;
 		assertScene();
 		OMEGA.memSavedSimulations[":memory:"+mark]=sstring;
-- 
2.43.0


From b2abec079a957b8531d38b781c2e7cfa3e91b735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:36 +0000
Subject: [PATCH 84/84] fix: CohFrictMat: negative cohesion is documented as
 purely elastic, but bonds broke at once

---
 pkg/dem/CohesiveFrictionalContactLaw.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/dem/CohesiveFrictionalContactLaw.cpp b/pkg/dem/CohesiveFrictionalContactLaw.cpp
index 005bb3d..7fbf4d2 100644
--- a/pkg/dem/CohesiveFrictionalContactLaw.cpp
+++ b/pkg/dem/CohesiveFrictionalContactLaw.cpp
@@ -115,11 +115,12 @@ bool Law2_ScGeom6D_CohFrictPhys_CohesionMoment::go(shared_ptr<IGeom>& ig, shared
 	Real un     = geom->penetrationDepth;
 	Real Fn    = phys->kn*(un-phys->unp);
 
-	if (phys->fragile && (-Fn)> phys->normalAdhesion) {
+	const bool tensionLimited = phys->normalAdhesion>=0; // negative: purely elastic
+	if (tensionLimited && phys->fragile && (-Fn)> phys->normalAdhesion) {
 		// BREAK due to tension
 		return false;
 	} else {
-		if ((-Fn)> phys->normalAdhesion) {//normal plasticity
+		if (tensionLimited && (-Fn)> phys->normalAdhesion) {//normal plasticity
 			Fn=-phys->normalAdhesion;
 			phys->unp = un+phys->normalAdhesion/phys->kn;
 			if (phys->unpMax>=0 && -phys->unp>phys->unpMax)  // Actually unpMax should be defined as a function of the average particule sizes for instance
@@ -143,7 +144,7 @@ bool Law2_ScGeom6D_CohFrictPhys_CohesionMoment::go(shared_ptr<IGeom>& ig, shared
 		if (!phys->cohesionDisablesFriction || maxFs==0)
 			maxFs += Fn*phys->tangensOfFrictionAngle;
 		maxFs = std::max((Real) 0, maxFs);
-		if (Fs  > maxFs) {//Plasticity condition on shear force
+		if (phys->shearAdhesion>=0 && Fs  > maxFs) {//Plasticity condition on shear force (negative adhesion: purely elastic)
 			if (phys->fragile && !phys->cohesionBroken) {
 				phys->SetBreakingState();
 				maxFs = max((Real) 0, Fn*phys->tangensOfFrictionAngle);
-- 
2.43.0

