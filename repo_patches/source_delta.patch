From 84fbd784ac3157222b771dfd0bde252064324a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:55 +0000
Subject: [PATCH 01/71] fix: apply the filter also to the last column and row
 of its support

The upper bound of the affected pixels was treated as exclusive without adding
one, so every sample lost the rightmost column and the bottom row of its filter
support and the image resulted shifted by half a pixel.
---
 src/cameras/image_film.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cameras/image_film.cpp b/src/cameras/image_film.cpp
index 821fb54..432be97 100644
--- a/src/cameras/image_film.cpp
+++ b/src/cameras/image_film.cpp
@@ -55,8 +55,9 @@ void ImageFilm::add_pixel(const Sample* sample, ColorXYZ color,
     float centre_y = sample->posy-0.5f;
     int update_x0 = (int)ceilf(centre_x-filter->range_x);
     int update_y0 = (int)ceilf(centre_y-filter->range_y);
-    int update_x1 = (int)floorf(centre_x+filter->range_x);
-    int update_y1 = (int)floorf(centre_y+filter->range_y);
+    //exclusive, the last pixel inside the range has to be affected as well
+    int update_x1 = (int)floorf(centre_x+filter->range_x)+1;
+    int update_y1 = (int)floorf(centre_y+filter->range_y)+1;
     update_x0 = max(update_x0, 0);
     update_y0 = max(update_y0, 0);
     update_x1 = min(update_x1, width);
-- 
2.43.0


From 30958b47d8f9c30f9f488678e1bb4a9c928f39b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:00 +0000
Subject: [PATCH 02/71] fix: defer every pixel that adjacent areas can update
 too

add_pixel treated the exclusive end of the secure area as its own, writing the
first column and row of the adjacent areas without locking, and updated the
pixels near its own border directly while the other threads were adding their
deferred contributions to the same pixels: samples could be lost.
---
 src/cameras/image_film.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cameras/image_film.cpp b/src/cameras/image_film.cpp
index 432be97..3852c75 100644
--- a/src/cameras/image_film.cpp
+++ b/src/cameras/image_film.cpp
@@ -63,13 +63,21 @@ void ImageFilm::add_pixel(const Sample* sample, ColorXYZ color,
     update_x1 = min(update_x1, width);
     update_y1 = min(update_y1, height);
 
+    //pixels that no sample outside the secure area can affect (end exclusive).
+    //The remaining ones can be updated also by the adjacent areas
+    const int safe_x0 =
+            (int)floorf(secure_area->startx-0.5f+filter->range_x)+1;
+    const int safe_y0 =
+            (int)floorf(secure_area->starty-0.5f+filter->range_y)+1;
+    const int safe_x1 = (int)ceilf(secure_area->endx-0.5f-filter->range_x);
+    const int safe_y1 = (int)ceilf(secure_area->endy-0.5f-filter->range_y);
+
     //foreach affected pixel
     for(int y = update_y0; y<update_y1; y++)
         for(int x = update_x0; x<update_x1; x++)
         {
             float weight = filter->weight(x-centre_x, y-centre_y);
-            if(x<secure_area->startx || x>secure_area->endx ||
-               y<secure_area->starty || y>secure_area->endy)
+            if(x<safe_x0 || x>=safe_x1 || y<safe_y0 || y>=safe_y1)
             {
                 //critical section, other threads could interfere. deferred add
                 TodoPixel pixel_toadd;
-- 
2.43.0


From 8fc11f841b5b406831523c667d5696e049dbb47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:07 +0000
Subject: [PATCH 03/71] fix: synchronise the progress bar with the rendering
 threads

---
 src/renderer.cpp | 23 +++++++++++++----------
 src/renderer.hpp |  7 +++++--
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/renderer.cpp b/src/renderer.cpp
index b683157..a5f9620 100644
--- a/src/renderer.cpp
+++ b/src/renderer.cpp
@@ -9,8 +9,8 @@ static void executor(Camera* camera, ImageFilm* film, std::mutex* lock, int spp,
                      Scene* scene, LightIntegrator* mc_solver);
 
 
-static void progressBar(std::stack<Renderer_task>* jobs, unsigned long ts,
-                        bool& alive);
+static void progressBar(std::stack<Renderer_task>* jobs, std::mutex* lock,
+                        unsigned long ts, std::atomic<bool>& alive);
 
 Renderer::Renderer(int width, int height, int spp, const char* out,
                    int thread_number):film(width, height, out)
@@ -111,7 +111,7 @@ int Renderer::render(Scene* s)
         }
     }
     steady_clock::time_point a = steady_clock::now();
-    RendererProgressBar progress_bar(&jobs);
+    RendererProgressBar progress_bar(&jobs, &jobs_mtx);
     //create threads
     for(int i = 0; i<Renderer::numthreads; i++)
     {
@@ -244,12 +244,13 @@ void executor(Camera* camera, ImageFilm* film, std::mutex* lock, int spp,
     film->add_pixel_forced(&ex);
 }
 
-RendererProgressBar::RendererProgressBar(std::stack<Renderer_task>* jobs)
+RendererProgressBar::RendererProgressBar(std::stack<Renderer_task>* jobs,
+                                         std::mutex* lock)
 {
     RendererProgressBar::jobs = jobs;
     RendererProgressBar::alive = true;
-    RendererProgressBar::listener = std::thread(progressBar, jobs, jobs->size(),
-                                                std::ref(alive));
+    RendererProgressBar::listener = std::thread(progressBar, jobs, lock,
+                                                jobs->size(), std::ref(alive));
 }
 
 RendererProgressBar::~RendererProgressBar()
@@ -269,8 +270,8 @@ void RendererProgressBar::kill()
     Console.progress_bar_done();
 }
 
-void progressBar(std::stack<Renderer_task>* jobs, unsigned long jobs_no,
-                 bool& alive)
+void progressBar(std::stack<Renderer_task>* jobs, std::mutex* lock,
+                 unsigned long jobs_no, std::atomic<bool>& alive)
 {
     unsigned long remaining;
     float done;
@@ -279,8 +280,10 @@ void progressBar(std::stack<Renderer_task>* jobs, unsigned long jobs_no,
     time_t eta;
     while(alive)
     {
-        remaining = jobs->size(); //I don't care about dirty reads, it's an
-        current_time = time(NULL); //eta, I cannot block n threads for an eta
+        lock->lock(); //once every PROGRESS_BAR_UPDATE_SECONDS
+        remaining = jobs->size();
+        lock->unlock();
+        current_time = time(NULL);
         done = (float)(jobs_no-remaining)/(float)jobs_no;
         eta = (time_t)((float)(current_time-start_time)/(jobs_no-remaining)*
                        remaining);
diff --git a/src/renderer.hpp b/src/renderer.hpp
index 75b7671..09051ec 100644
--- a/src/renderer.hpp
+++ b/src/renderer.hpp
@@ -27,6 +27,8 @@
 #include "integrators/light_integrator.hpp"
 #include "settings.h"
 #include <thread> //std::thread
+#include <mutex> //std::mutex
+#include <atomic> //std::atomic
 #include <stack> //std::stack
 #include <chrono> //std::this_thread::sleep_for, platform independent
 #include <ctime> //time for srand
@@ -60,8 +62,9 @@ public:
     /** \brief Default constructor
      *
      * \param[in] jobs The job queue
+     * \param[in] lock The mutex protecting the job queue
      */
-    RendererProgressBar(std::stack<Renderer_task>* jobs);
+    RendererProgressBar(std::stack<Renderer_task>* jobs, std::mutex* lock);
 
     ///Default destructor
     ~RendererProgressBar();
@@ -78,7 +81,7 @@ private:
     std::thread listener;
 
     //used to terminate the thread
-    bool alive;
+    std::atomic<bool> alive;
 };
 
 /**
-- 
2.43.0


From 9ecb5c7f33bb61a011c41fc84eba46ea52492521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 04/71] fix: keep flat assets when splitting a kd-tree node on
 their plane

---
 src/accelerators/kdtree.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/accelerators/kdtree.cpp b/src/accelerators/kdtree.cpp
index 968e24b..8d056ab 100644
--- a/src/accelerators/kdtree.cpp
+++ b/src/accelerators/kdtree.cpp
@@ -110,7 +110,10 @@ namespace KdHelpers
     //used to sort the splicandidate in the kdtree build
     bool compare_sc(const SplitCandidate s1, const SplitCandidate s2)
     {
-        return s1.pos<s2.pos;
+        //an asset without extent along this axis has two sides in the same
+        //position: the left one should always come first
+        return s1.pos<s2.pos ||
+               (s1.pos == s2.pos && s1.isLeftSide && !s2.isLeftSide);
     }
 
     //helper structure for kd tree traversal
-- 
2.43.0


From 6ab7f93cceabd0a3cf5a3c96f5b79dc0d6cdc779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 05/71] fix: rebuild the kd-tree from scratch and never
 overflow its asset list

---
 src/accelerators/kdtree.cpp | 26 +++++++++++++++-----------
 src/accelerators/kdtree.hpp |  4 ++++
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/accelerators/kdtree.cpp b/src/accelerators/kdtree.cpp
index 8d056ab..019ca2e 100644
--- a/src/accelerators/kdtree.cpp
+++ b/src/accelerators/kdtree.cpp
@@ -154,7 +154,10 @@ KdTree::~KdTree()
 void KdTree::addAsset(const Asset* addme)
 {
     if(assets_number == _MAX_ASSETS_)
+    {
         Console.severe(MESSAGE_MAXASSETNUMBER);
+        return;
+    }
     if(assets_number == assets_allocated)
     {
         int allocNo = min(assets_allocated << 1, _MAX_ASSETS_);
@@ -226,13 +229,14 @@ void KdTree::buildTree()
     for(int i = 1; i<assets_number; i++)
         scene_aabb.engulf(assetsList[i]->get_AABB());
 
-    //copy the assets, since the original array will be rewritten in a
-    //different order
+    //copy the assets, since the array will be rewritten in a different order
     Asset** alcopy = (Asset**)malloc(sizeof(Asset*)*KdTree::assets_number);
     memcpy(alcopy, KdTree::assetsList, sizeof(Asset*)*KdTree::assets_number);
-    unsigned int a_n = KdTree::assets_number; //assets_number will be set to 0
-    KdTree::assets_number = 0;//and assets will be reinserted in order during
-    //building of the kd-tree
+    unsigned int a_n = KdTree::assets_number;
+
+    //discard the previous tree, if any
+    KdTree::leafList.clear();
+    KdTree::nodes_index = 0;
 
     //allocate the array of possible candidates. sc[axis][candidate]
     SplitCandidate** sc = (SplitCandidate**)malloc(sizeof(SplitCandidate*)*3);
@@ -268,14 +272,14 @@ void KdTree::build(void* n, char depth, void* s_c, Asset** a_l,
     //terminate recursion if max depth or too few assets
     if(depth == KD_MAX_DEPTH || a_n<=_LEAF_ASSETS_)
     {
-        node->offset_start = KdTree::assets_number;
+        node->offset_start = (unsigned int)KdTree::leafList.size();
         node->assets_number = a_n;
 
-        //assets are added in order to the Class assets array
+        //assets are added in order to the Class leaf array
         //now i can reference them with a pointer to the first and the number
         //of assets for the leaf
         for(unsigned int i = 0; i<a_n; i++)
-            KdTree::addAsset(a_l[i]);
+            leafList.push_back(a_l[i]);
         node->isLeaf = true;
         node->left = NULL;
         node->right = NULL;
@@ -367,10 +371,10 @@ void KdTree::build(void* n, char depth, void* s_c, Asset** a_l,
     //best cost sucks, better not to split at all -> make a leaf
     if((best_cost>4.f*old_cost && a_n<16) || best_axis == 0xFF)
     {
-        node->offset_start = KdTree::assets_number;
+        node->offset_start = (unsigned int)KdTree::leafList.size();
         node->assets_number = a_n;
         for(unsigned int i = 0; i<a_n; i++)
-            KdTree::addAsset(a_l[i]);
+            leafList.push_back(a_l[i]);
         node->isLeaf = true;
         node->left = NULL;
         node->right = NULL;
@@ -486,7 +490,7 @@ bool KdTree::intersect(const Ray* r, HitPoint* h) const
             //try to intersect every asset
             for(unsigned int i = 0; i<a_n; i++)
             {
-                current_asset = assetsList[n->getAssetOffset()+i];
+                current_asset = leafList[n->getAssetOffset()+i];
 
                 //firstly try with the aabb since it's faster
                 if(current_asset->intersect_AABB(r, &rp, &res1, &res2))
diff --git a/src/accelerators/kdtree.hpp b/src/accelerators/kdtree.hpp
index 00831f8..0c5c258 100644
--- a/src/accelerators/kdtree.hpp
+++ b/src/accelerators/kdtree.hpp
@@ -240,6 +240,10 @@ private:
     //the list of assets managed by this kd-tree
     const Asset** assetsList;
 
+    //the assets referenced by the leaves, in order. An asset crossing a split
+    //plane is referenced by more than one leaf
+    std::vector<const Asset*> leafList;
+
     //the number of assets managed and the index of the next insertion
     int assets_number;
 
-- 
2.43.0


From 00c122f73fb76acd8cf408a3cd5ed48979b533da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:25 +0000
Subject: [PATCH 06/71] fix: report the face index of a mesh in the order its
 triangles were added

---
 src/accelerators/bvh.cpp | 5 ++++-
 src/accelerators/bvh.hpp | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/accelerators/bvh.cpp b/src/accelerators/bvh.cpp
index b0c61dd..503b2b3 100644
--- a/src/accelerators/bvh.cpp
+++ b/src/accelerators/bvh.cpp
@@ -306,6 +306,7 @@ Bvh::~Bvh()
 void Bvh::buildTree(Triangle* tris, int len)
 {
     Bvh::tris = tris;
+    Bvh::original_index.clear();
     if(len<AAC_DELTA) //small mesh
     {
         Bvh::nodesList = (BvhNode*)malloc(sizeof(BvhNode));
@@ -368,6 +369,7 @@ void Bvh::buildTree(Triangle* tris, int len)
         tris[i].a = tmp[prims[i].index].a; //copy from the reference
         tris[i].b = tmp[prims[i].index].b;
         tris[i].c = tmp[prims[i].index].c;
+        original_index.push_back((unsigned int)prims[i].index);
     }
     free(tmp);
     free(prims);
@@ -428,7 +430,8 @@ bool Bvh::intersect(const Ray* r, float* distance, HitPoint* h,
                     unsigned int tmp_index = node->offset+i;
                     if(Bvh::tris[tmp_index].intersect(r, distance, h, mask))
                     {
-                        h->index = tmp_index;
+                        h->index = original_index.empty()?
+                                   tmp_index:original_index[tmp_index];
                         found = true;
                     }
                 }
diff --git a/src/accelerators/bvh.hpp b/src/accelerators/bvh.hpp
index 9c092f1..92106d8 100644
--- a/src/accelerators/bvh.hpp
+++ b/src/accelerators/bvh.hpp
@@ -114,6 +114,9 @@ private:
 
     //A pointer to the array of triangles around which the bvh is built
     Triangle* tris;
+
+    //Position of each triangle before being reordered, empty if not reordered
+    std::vector<unsigned int> original_index;
 };
 
 #endif
-- 
2.43.0


From d3511ed4bf383d2cd1b6d8e22a208be41686e552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:25 +0000
Subject: [PATCH 07/71] fix: traverse mesh hierarchies deeper than 32 levels
 without overflow

---
 src/accelerators/bvh.cpp | 28 +++++++++++++++++++++-------
 src/accelerators/bvh.hpp |  8 +++++++-
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/accelerators/bvh.cpp b/src/accelerators/bvh.cpp
index 503b2b3..05dc92b 100644
--- a/src/accelerators/bvh.cpp
+++ b/src/accelerators/bvh.cpp
@@ -298,6 +298,9 @@ static uint32_t traverseTree(Triangle* tris, Primitive* p, uint32_t offs,
 
 // <><><><><><><><> Bvh methods <><><><><><><><><><><><><><><><><><><><><><><><>
 
+Bvh::Bvh():nodesList(NULL), max_depth(0), tris(NULL)
+{}
+
 Bvh::~Bvh()
 {
     free(nodesList);
@@ -306,7 +309,9 @@ Bvh::~Bvh()
 void Bvh::buildTree(Triangle* tris, int len)
 {
     Bvh::tris = tris;
+    Bvh::max_depth = 0;
     Bvh::original_index.clear();
+    free(nodesList); //discard the previous tree, if any
     if(len<AAC_DELTA) //small mesh
     {
         Bvh::nodesList = (BvhNode*)malloc(sizeof(BvhNode));
@@ -356,7 +361,7 @@ void Bvh::buildTree(Triangle* tris, int len)
     }
     uint32_t index = 0;
 
-    flatten(clusters.at(0), &index);
+    flatten(clusters.at(0), &index, 0);
 
     //reorder the Triangle* array
     //this is actually horrible but I don't want to deallocate array under
@@ -375,9 +380,11 @@ void Bvh::buildTree(Triangle* tris, int len)
     free(prims);
 }
 
-void Bvh::flatten(void* n, uint32_t* index)
+void Bvh::flatten(void* n, uint32_t* index, uint32_t depth)
 {
     BvhBuildNode* node = (BvhBuildNode*)n;
+    if(depth>max_depth)
+        max_depth = depth;
     if(node->left == NULL) //leaf
     {
         nodesList[*index].bounding = node->bounding;
@@ -392,19 +399,19 @@ void Bvh::flatten(void* n, uint32_t* index)
         uint32_t myindex = (*index)++;
 
         //left node is right after the parent, right node is somewhere else
-        flatten(node->left, index);
+        flatten(node->left, index, depth+1);
 
         //I processed all the left nodes, so now I know the right node position
         nodesList[myindex].bounding = node->bounding;
         nodesList[myindex].sibling = *index;
         nodesList[myindex].len = 0;
         nodesList[myindex].axis = (uint8_t)(node->split);
-        flatten(node->right, index);
+        flatten(node->right, index, depth+1);
     }
     delete (node);
 }
 
-///Max depth of the Bvh tree
+///Depth of the Bvh tree for which no allocation is needed while traversing it
 #define BVH_MAX_DEPTH 32
 
 bool Bvh::intersect(const Ray* r, float* distance, HitPoint* h,
@@ -415,8 +422,15 @@ bool Bvh::intersect(const Ray* r, float* distance, HitPoint* h,
     float dmax;
     bool found = false;
 
-    BvhNode* jobs[BVH_MAX_DEPTH];
-    unsigned char jobs_stack_top = 0;
+    BvhNode* jobs_fixed[BVH_MAX_DEPTH];
+    std::vector<BvhNode*> jobs_deep; //used only by really deep trees
+    BvhNode** jobs = jobs_fixed;
+    if(max_depth>BVH_MAX_DEPTH)
+    {
+        jobs_deep.resize(max_depth);
+        jobs = jobs_deep.data();
+    }
+    unsigned int jobs_stack_top = 0;
     BvhNode* node = Bvh::nodesList;
     while(node != NULL)
     {
diff --git a/src/accelerators/bvh.hpp b/src/accelerators/bvh.hpp
index 92106d8..42b0eca 100644
--- a/src/accelerators/bvh.hpp
+++ b/src/accelerators/bvh.hpp
@@ -75,6 +75,9 @@ class Bvh
 {
 public:
 
+    ///Default constructor
+    Bvh();
+
     ///Default destructor
     ~Bvh();
 
@@ -107,11 +110,14 @@ public:
 private:
 
     //transform the temp build structure in the flattened one
-    void flatten(void*, uint32_t*);
+    void flatten(void*, uint32_t*, uint32_t depth);
 
     //The flattened tree
     BvhNode* nodesList;
 
+    //Depth of the flattened tree
+    uint32_t max_depth;
+
     //A pointer to the array of triangles around which the bvh is built
     Triangle* tris;
 
-- 
2.43.0


From dd7e6deccea6448f58c358b492a06b2633c80aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:25 +0000
Subject: [PATCH 08/71] fix: let a mesh announced with no triangles grow

---
 src/primitives/mesh.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primitives/mesh.cpp b/src/primitives/mesh.cpp
index 6f250c8..fae5b63 100644
--- a/src/primitives/mesh.cpp
+++ b/src/primitives/mesh.cpp
@@ -43,6 +43,7 @@ void Mesh::add_triangle(const Vertex* a, const Vertex* b, const Vertex* c)
         if(Mesh::count == Mesh::alloc) //need to realloc a bigger area
         {
             unsigned int newsize = alloc << 1<_MAX_TRIS_?alloc << 1:_MAX_TRIS_;
+            newsize = newsize>0?newsize:1; //the mesh could have been empty
             Triangle* tmp = new Triangle[newsize];
             memcpy((void*)tmp, (void*)Mesh::tris, Mesh::count*sizeof(Triangle));
             delete[] Mesh::tris;
-- 
2.43.0


From 8d9aff18a8afcf6977bc036d0fa6ffc6bcc19ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:21 +0000
Subject: [PATCH 09/71] fix: check the second hit of a masked sphere against
 the distance limit

---
 src/primitives/sphere.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/sphere.cpp b/src/primitives/sphere.cpp
index 6a60ac3..47990e4 100644
--- a/src/primitives/sphere.cpp
+++ b/src/primitives/sphere.cpp
@@ -116,7 +116,7 @@ bool Sphere::intersect(const Ray* r, float* distance, HitPoint* hit,
             hit->dpdu = tmp.dpdu;
             hit->dpdv = tmp.dpdv;
         }
-        else if(!std::isnan(sol2))
+        else if(!std::isnan(sol2) && sol2<=*distance)
         {
             //repeat the procedure with second hit, first was invalidated
             hitp = r->apply(sol2);
-- 
2.43.0


From f1bb7d0d4b2c14d7f571e997eb3b719735d6c5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:49 +0000
Subject: [PATCH 10/71] fix: give box hits both tangents and the normal of the
 face they leave from

---
 src/primitives/box.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/primitives/box.cpp b/src/primitives/box.cpp
index 04e5efd..96c86c7 100644
--- a/src/primitives/box.cpp
+++ b/src/primitives/box.cpp
@@ -62,6 +62,7 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
     float mint;
     float maxt;
     char axis = 0; //used for normal identification
+    char exit_axis = 0; //same, for a ray leaving the box
 
     //x plane
     float invr = 1.0f/r->direction.x;
@@ -83,7 +84,11 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
         mint = near;
         axis = 1;
     }
-    maxt = far<maxt?far:maxt;
+    if(far<maxt)
+    {
+        maxt = far;
+        exit_axis = 1;
+    }
     if(mint>maxt)
         return false;
 
@@ -98,7 +103,11 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
         mint = near;
         axis = 2;
     }
-    maxt = far<maxt?far:maxt;
+    if(far<maxt)
+    {
+        maxt = far;
+        exit_axis = 2;
+    }
     if(mint>maxt)
         return false;
     float tmpdistance;
@@ -108,6 +117,7 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
     {
         inside = true;
         tmpdistance = maxt;
+        axis = exit_axis;
     }
     else
         return false;
@@ -125,6 +135,7 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
             h->dpdu = Vec3(h->normal_h.z, 0, 0);
         else
             h->dpdu = Vec3(-h->normal_h.y, h->normal_h.x, 0);
+        h->dpdv = cross(Vec3(h->normal_h), h->dpdu);
         h->index = 0;
         return true;
         //TODO: missing uv generation, and masking should be done after uvs
-- 
2.43.0


From 092414735d252a6ee93f16034ed4f51928e8bb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:07 +0000
Subject: [PATCH 11/71] fix: give triangles with degenerate texture coordinates
 finite tangents

---
 src/primitives/triangle.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/primitives/triangle.cpp b/src/primitives/triangle.cpp
index 9416495..daf6d70 100644
--- a/src/primitives/triangle.cpp
+++ b/src/primitives/triangle.cpp
@@ -89,19 +89,26 @@ bool Triangle::intersect(const Ray* r, float* distance, HitPoint* h,
     const float delta[2][2] = {{a.t[0]-c.t[0], b.t[0]-c.t[0]},
                                {a.t[1]-c.t[1], b.t[1]-c.t[1]}};
     const float uvdet = delta[0][0]*delta[1][1]-delta[0][1]*delta[1][0];
-    //TODO: handle degenerate UVs (uvdet == 0)
-    const float invuvdet = 1.f/uvdet;
     const Vec3 ac = a.p-c.p;
     const Vec3 bc = b.p-c.p;
     //tmp is necessary because I cannot overwrite original "h" if there's not
     //intersection. (here intersection could be invalidated by mask)
     HitPoint tmp;
-    tmp.dpdu = (ac*delta[1][1]-bc*delta[1][0])*invuvdet;
-    tmp.dpdv = (bc*delta[0][0]-ac*delta[0][1])*invuvdet;
+    if(uvdet != 0)
+    {
+        const float invuvdet = 1.f/uvdet;
+        tmp.dpdu = (ac*delta[1][1]-bc*delta[1][0])*invuvdet;
+        tmp.dpdv = (bc*delta[0][0]-ac*delta[0][1])*invuvdet;
+    }
+    else //degenerate UVs: any two directions on the triangle will do
+    {
+        tmp.dpdu = ba;
+        tmp.dpdv = cross(cross(ba, ca), ba);
+    }
     tmp.uv.x = w*a.t.x+u*b.t.x+v*c.t.x;
     tmp.uv.y = w*a.t.y+u*b.t.y+v*c.t.y;
     tmp.du = h->du;
-    tmp.dv = h->du;
+    tmp.dv = h->dv;
     tmp.differentials = h->differentials;
     if(!mask->is_masked(&tmp))
     {
-- 
2.43.0


From 2e2c8c4d88cd7de03ba0456f7f87729c2d06196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:05 +0000
Subject: [PATCH 12/71] fix: pad BMP rows to four bytes, reject impossible
 sizes and report failed writes

---
 src/utility/imageio/bmp.c | 40 ++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/utility/imageio/bmp.c b/src/utility/imageio/bmp.c
index 728896b..66621b1 100644
--- a/src/utility/imageio/bmp.c
+++ b/src/utility/imageio/bmp.c
@@ -5,6 +5,12 @@
 
 #define BMP_MAGIC 19778
 
+/* Length in bytes of a row, rounded up to a multiple of 4 bytes */
+static size_t bmp_row_len(int width, int bytes_per_pixel)
+{
+    return ((size_t)width*bytes_per_pixel+3)/4*4;
+}
+
 uint32_t bmp_size(int width, int height, short bpp)
 {
     return sizeof(struct bmp_header)+
@@ -50,7 +56,7 @@ char bmp_dimensions(const char* name, int* width, int* height)
                 *width = ENDIANNESS_LITTLE32(dib.width);
                 *height = ENDIANNESS_LITTLE32(dib.height);
                 *height = *height>=0?*height:-*height;
-                retval = 1;
+                retval = *width>0 && *height>0;
             }
         }
         fclose(fin);
@@ -84,32 +90,30 @@ char bmp_write(const char* name, int width, int height, const uint32_t* data)
     {
         struct bmp_header header;
         struct bmp_dib_v3 dib;
-        char bpp;
-        char padding;
+        int bpp;
         int x;
         int y;
-        int data_idx = 0;
+        size_t row_len;
         uint8_t* row;
         create_bmp_header(width, height, &header, &dib);
         bpp = ENDIANNESS_LITTLE16(dib.bpp) >> 3;
-        padding = (width*bpp)%4;
-        row = (uint8_t*)malloc(sizeof(uint8_t)*(bpp*width+padding));
-        fwrite(&header, sizeof(struct bmp_header), 1, fout);
-        fwrite(&dib, sizeof(struct bmp_dib_v3), 1, fout);
-        for(y = 0; y<height; y++)
+        row_len = bmp_row_len(width, bpp);
+        row = (uint8_t*)calloc(row_len, sizeof(uint8_t));
+        retval = row != NULL &&
+                 fwrite(&header, sizeof(struct bmp_header), 1, fout) == 1 &&
+                 fwrite(&dib, sizeof(struct bmp_dib_v3), 1, fout) == 1;
+        for(y = 0; retval && y<height; y++)
         {
             for(x = 0; x<width; x++)
             {
                 row[x*3+0] = (data[y*width+x] & 0xFF000000) >> 24; /* Blue  */
                 row[x*3+1] = (data[y*width+x] & 0x00FF0000) >> 16; /* Green */
                 row[x*3+2] = (data[y*width+x] & 0x0000FF00) >> 8; /* Red   */
-                data_idx += 3;
             }
-            fwrite(row, sizeof(uint8_t), bpp*width+padding, fout);
+            retval = fwrite(row, sizeof(uint8_t), row_len, fout) == row_len;
         }
         free(row);
-        fclose(fout);
-        retval = data_idx == width*height*bpp;
+        retval &= fclose(fout) == 0; /* data could be still in the buffer */
     }
     return retval;
 }
@@ -130,19 +134,21 @@ char bmp_read(const char* name, uint32_t* values)
         /* not v3 or other fancy features not supported */
         if(res && dib.compression == 0 && dib.palette_no == 0 &&
            (ENDIANNESS_LITTLE16(dib.bpp) == 24 ||
-            ENDIANNESS_LITTLE16(dib.bpp) == 32))
+            ENDIANNESS_LITTLE16(dib.bpp) == 32) &&
+           (int32_t)ENDIANNESS_LITTLE32(dib.width)>0 &&
+           (int32_t)ENDIANNESS_LITTLE32(dib.height) != 0 &&
+           (int32_t)ENDIANNESS_LITTLE32(dib.height) != INT32_MIN)
         {
             int height = ENDIANNESS_LITTLE32(dib.height);
             const int WIDTH = ENDIANNESS_LITTLE32(dib.width);
             const int BPP = ENDIANNESS_LITTLE16(dib.bpp) >> 3;
             const char HAS_ALPHA = BPP == 4;
-            const char PADDING = (WIDTH*BPP)%4;
             int y;
             int ymax;
             int x;
             int increment = -height/abs(height);
             int written = 0;
-            const int ROW_LEN = BPP*WIDTH+PADDING;
+            const size_t ROW_LEN = bmp_row_len(WIDTH, BPP);
             uint8_t* row = (uint8_t*)malloc(ROW_LEN);
             if(increment<0)
             {
@@ -156,7 +162,7 @@ char bmp_read(const char* name, uint32_t* values)
                 y = 0;
             }
             fseek(fin, ENDIANNESS_LITTLE32(header.data_offset), SEEK_SET);
-            while(y != ymax && fread(row, BPP*WIDTH+PADDING, 1, fin))
+            while(row != NULL && y != ymax && fread(row, ROW_LEN, 1, fin))
             {
                 x = 0;
                 while(x<WIDTH)
-- 
2.43.0


From bd57bfa53e8a8d3a03fc4ea468a2db781b22fce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:59 +0000
Subject: [PATCH 13/71] fix: decode TGA raw and run-length packets of any
 length within the picture, report failed writes

---
 src/utility/imageio/tga.c | 190 ++++++++++++--------------------------
 1 file changed, 58 insertions(+), 132 deletions(-)

diff --git a/src/utility/imageio/tga.c b/src/utility/imageio/tga.c
index 182962c..34dc98f 100644
--- a/src/utility/imageio/tga.c
+++ b/src/utility/imageio/tga.c
@@ -81,7 +81,7 @@ char tga_write(const char* name, int width, int height, const uint32_t* data)
         struct tga_header header;
         int x;
         int y;
-        int data_idx = 0;
+        const size_t ROW_LEN = (size_t)width*BPP;
         uint8_t* row;
         memset(&header, 0, sizeof(struct tga_header));
         header.width = ENDIANNESS_LITTLE16((uint16_t)width);
@@ -89,9 +89,9 @@ char tga_write(const char* name, int width, int height, const uint32_t* data)
         header.datatype_code = TGA_RGB; /* uncompressed RGB */
         header.bpp = BPP << 3;
         header.img_descriptor = TGA_UPPER_ORIGIN;
-        row = (uint8_t*)malloc(sizeof(uint8_t)*(width*BPP));
-        fwrite(&header, sizeof(struct tga_header), 1, fout);
-        for(y = 0; y<height; y++)
+        row = (uint8_t*)malloc(sizeof(uint8_t)*ROW_LEN);
+        retval = fwrite(&header, sizeof(struct tga_header), 1, fout) == 1;
+        for(y = 0; retval && y<height; y++)
         {
             for(x = 0; x<width; x++)
             {
@@ -99,17 +99,38 @@ char tga_write(const char* name, int width, int height, const uint32_t* data)
                 row[x*BPP+0] = (data[y*width+x] & 0xFF000000) >> 24; /* Blue  */
                 row[x*BPP+1] = (data[y*width+x] & 0x00FF0000) >> 16; /* Green */
                 row[x*BPP+2] = (data[y*width+x] & 0x0000FF00) >> 8; /* Red   */
-                data_idx += BPP;
             }
-            fwrite(row, sizeof(uint8_t), BPP*width, fout);
+            retval = fwrite(row, sizeof(uint8_t), ROW_LEN, fout) == ROW_LEN;
         }
-        fclose(fout);
         free(row);
-        retval = data_idx == width*height*BPP;
+        retval &= fclose(fout) == 0; /* data could be still in the buffer */
     }
     return retval;
 }
 
+/* convert a pixel of the file, given its size in bytes, to 0xBBGGRRAA */
+static uint32_t tga_pixel(const uint8_t* pixel, uint8_t bytes)
+{
+    uint32_t value;
+    if(bytes == 2) /* 16 bit */
+    {
+        value = 0x000000FF;
+        /* the shift is a multiplication by 8 */
+        /* used to map a value from 0-31 to 0-255 */
+        value |= ((pixel[1] & 0x7C) << 1) << 8;
+        value |= ((pixel[1] & 0x03) << 6 | (pixel[0] & 0xE0) >> 2) << 16;
+        value |= (uint32_t)((pixel[0] & 0x1F) << 3) << 24;
+    }
+    else
+    {
+        value = bytes == 4?pixel[3]:0xFF;  /* Alpha */
+        value |= pixel[2] << 8;  /* Red   */
+        value |= pixel[1] << 16; /* Green */
+        value |= (uint32_t)pixel[0] << 24; /* Blue  */
+    }
+    return value;
+}
+
 char tga_read(const char* name, uint32_t* values)
 {
     char retval = 0;
@@ -128,153 +149,58 @@ char tga_read(const char* name, uint32_t* values)
         const char COMPRESSED = header.datatype_code == TGA_RGB_RLE;
         const int WIDTH = ENDIANNESS_LITTLE16(header.width);
         const int HEIGHT = ENDIANNESS_LITTLE16(header.height);
-        uint8_t pixel[5];
+        uint8_t pixel[4];
+        uint8_t packet;
         int x = 0;
         int y = 0;
-        int ymax;
         int increment;
-        int i;
         const int SKIPME = header.id_len+header.colourmap_type*
                 ENDIANNESS_LITTLE16(header.colourmap_length);
+        const int TOTAL = WIDTH*HEIGHT;
         int written = 0;
-        int rle;
+        int todo; /* pixels left in the current packet */
+        char repeat; /* true if the packet contains a single pixel repeated */
         if(header.img_descriptor & TGA_UPPER_ORIGIN) /* top-down */
         {
             increment = 1;
-            ymax = HEIGHT;
             y = 0;
         }
         else
         {
             increment = -1;
-            ymax = -1;
             y = HEIGHT-1;
         }
         fseek(fin, SKIPME, SEEK_CUR); /* I don't care about these features */
-        while(y != ymax)
+        while(written<TOTAL)
         {
-            i = y*WIDTH;
-            x = 0;
-            while(x<WIDTH && fread(&pixel, BPP+COMPRESSED, 1, fin))
+            todo = 1;
+            repeat = 0;
+            if(COMPRESSED) /* RLE compression, packets can span over lines */
             {
-                if(!COMPRESSED)
-                {
-                    if(BPP == 3) /* 24 bit no RLE */
-                    {
-                        values[i] = 0x000000FF;
-                        values[i] |= pixel[2] << 8;  /* Red   */
-                        values[i] |= pixel[1] << 16; /* Green */
-                        values[i] |= pixel[0] << 24; /* Blue  */
-                    }
-                    else if(BPP == 4) /* 32 bit no RLE */
-                    {
-                        values[i] = 0x00000000;
-                        values[i] |= pixel[3] << 0;  /* Alpha */
-                        values[i] |= pixel[2] << 8;  /* Red   */
-                        values[i] |= pixel[1] << 16; /* Green */
-                        values[i] |= pixel[0] << 24; /* Blue  */
-                    }
-                    else /* 16 bit no RLE */
-                    {
-                        values[i] = 0x000000FF;
-                        /* the shift is a multiplication by 8 */
-                        /* used to map a value from 0-31 to 0-255 */
-                        values[i] |= ((pixel[1] & 0x7C) << 1) << 8;
-                        values[i] |= ((pixel[1] & 0x03) << 6 |
-                                      (pixel[0] & 0xE0) >> 2) << 16;
-                        values[i] |= ((pixel[0] & 0x1F) << 3) << 24;
-                    }
-                    i++;
-                    written++;
-                    x++;
-                }
-                else /* RLE compression */
+                if(!fread(&packet, 1, 1, fin))
+                    break;
+                todo += packet & 0x7F;
+                repeat = (packet & 0x80) != 0;
+            }
+            if(repeat && !fread(&pixel, BPP, 1, fin))
+                break;
+            while(todo-->0 && written<TOTAL)
+            {
+                if(!repeat && !fread(&pixel, BPP, 1, fin))
+                    break;
+                values[y*WIDTH+x] = tga_pixel(pixel, BPP);
+                written++;
+                x++;
+                if(x == WIDTH) /* wrap line */
                 {
-                    if(pixel[0] & 0x80) /* RLE */
-                    {
-                        int rle_len = 1+(pixel[0] & 0x7F);
-                        for(rle = 0; rle<rle_len; rle++)
-                        {
-                            if(BPP == 3) /* 24 bit no RLE */
-                            {
-                                values[i] = 0x000000FF;
-                                values[i] |= pixel[3] << 8;  /* Red   */
-                                values[i] |= pixel[2] << 16; /* Green */
-                                values[i] |= pixel[1] << 24; /* Blue  */
-                            }
-                            else if(BPP == 4) /* 32 bit no RLE */
-                            {
-                                values[i] = 0x00000000;
-                                values[i] |= pixel[4] << 0;  /* Alpha */
-                                values[i] |= pixel[3] << 8;  /* Red   */
-                                values[i] |= pixel[2] << 16; /* Green */
-                                values[i] |= pixel[1] << 24; /* Blue  */
-                            }
-                            else /* 16 bit no RLE */
-                            {
-                                values[i] = 0x000000FF;
-                                /* the shift is a multiplication by 8 */
-                                /* used to map a value from 0-31 to 0-255 */
-                                values[i] |= ((pixel[2] & 0x7C) << 1) << 8;
-                                values[i] |= ((pixel[2] & 0x03) << 6 |
-                                              (pixel[1] & 0xE0) >> 2) << 16;
-                                values[i] |= ((pixel[1] & 0x1F) << 3) << 24;
-                            }
-                            i++;
-                            written++;
-                            x++;
-                            if(x == WIDTH) /* wrap line */
-                            {
-                                y += increment;
-                                if(y == ymax) /* endgame */
-                                {
-                                    /* set condition to break both loops */
-                                    y = ymax-increment;
-                                    x = WIDTH;
-                                }
-                                else
-                                    x = 0;
-                                i = y*WIDTH;
-                            }
-                        }
-                    }
-                    else /* normal */
-                    {
-                        if(BPP == 3) /* 24 bit no RLE */
-                        {
-                            values[i] = 0x000000FF;
-                            values[i] |= pixel[3] << 8;  /* Red   */
-                            values[i] |= pixel[2] << 16; /* Green */
-                            values[i] |= pixel[1] << 24; /* Blue  */
-                        }
-                        else if(BPP == 4) /* 32 bit no RLE */
-                        {
-                            values[i] = 0x00000000;
-                            values[i] |= pixel[4] << 0;  /* Alpha */
-                            values[i] |= pixel[3] << 8;  /* Red   */
-                            values[i] |= pixel[2] << 16; /* Green */
-                            values[i] |= pixel[1] << 24; /* Blue  */
-                        }
-                        else /* 16 bit no RLE */
-                        {
-                            values[i] = 0x000000FF;
-                            /* the shift is a multiplication by 8 */
-                            /* used to map a value from 0-31 to 0-255 */
-                            values[i] |= ((pixel[2] & 0x7C) << 1) << 8;
-                            values[i] |= ((pixel[2] & 0x03) << 6 |
-                                          (pixel[1] & 0xE0) >> 2) << 16;
-                            values[i] |= ((pixel[1] & 0x1F) << 3) << 24;
-                        }
-                        x++;
-                        written++;
-                        i++;
-                    }
-
+                    x = 0;
+                    y += increment;
                 }
             }
-            y += increment;
+            if(todo>=0 && written<TOTAL) /* file ended inside the packet */
+                break;
         }
-        retval = WIDTH*HEIGHT == written;
+        retval = TOTAL == written;
     }
     fclose(fin);
     return retval;
-- 
2.43.0


From aa3eb4964eb6b4957b6aa4e5db9221b68666447a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:39 +0000
Subject: [PATCH 14/71] fix: read deep PPM samples whole, reject incomplete PPM
 files and report failed writes

---
 src/utility/imageio/endianness.h |  4 +--
 src/utility/imageio/ppm.c        | 62 ++++++++++++++++----------------
 2 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/src/utility/imageio/endianness.h b/src/utility/imageio/endianness.h
index 952d8e0..37ab81f 100644
--- a/src/utility/imageio/endianness.h
+++ b/src/utility/imageio/endianness.h
@@ -11,7 +11,7 @@
 !defined(IS_BIG_ENDIAN)
 #define ENDIANNESS_LITTLE16(value) value
 #define ENDIANNESS_LITTLE32(value) value
-#define ENDIANNESS_BIG16(value) ((value & 0xFF) >> 8) | (value << 8)
+#define ENDIANNESS_BIG16(value) ((value & 0xFF00) >> 8) | (value << 8)
 #define ENDIANNESS_BIG32(value) ((value & 0xFF000000) >> 24) | \
                                        ((value & 0x00FF0000) >> 8) | \
                                        ((value & 0x0000FF00) << 8) | \
@@ -19,7 +19,7 @@
 #elif __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
 #define ENDIANNESS_BIG16(value) value
 #define ENDIANNESS_BIG32(value) value
-#define ENDIANNESS_LITTLE16(value) ((value & 0xFF) >> 8) | (value << 8)
+#define ENDIANNESS_LITTLE16(value) ((value & 0xFF00) >> 8) | (value << 8)
 #define ENDIANNESS_LITTLE32(value) ((value & 0xFF000000) >> 24) | \
                                        ((value & 0x00FF0000) >> 8) | \
                                        ((value & 0x0000FF00) << 8) | \
diff --git a/src/utility/imageio/ppm.c b/src/utility/imageio/ppm.c
index b6595b0..89727a4 100644
--- a/src/utility/imageio/ppm.c
+++ b/src/utility/imageio/ppm.c
@@ -3,7 +3,7 @@
 
 #include "ppm.h"
 
-#define CLAMP(x, y, z) ((x)<0)?0:(x)>(z)?(z):(x)
+#define CLAMP(x, y, z) (((x)<(y))?(y):((x)>(z))?(z):(x))
 
 char ppm_write(const char* name, int width, int height, const uint32_t* array)
 {
@@ -23,8 +23,8 @@ char ppm_write(const char* name, int width, int height, const uint32_t* array)
             pixel[2] = (array[i] & 0xFF000000) >> 24;
             written += fwrite(&pixel, sizeof(uint8_t), 3, fout);
         }
-        fclose(fout);
         retval = written == width*height*3;
+        retval &= fclose(fout) == 0; /* data could be still in the buffer */
     }
     return retval;
 }
@@ -36,11 +36,11 @@ char ppm_dimensions(const char* name, int* width, int* height)
     if(fin != NULL)
     {
         char magic[2];
-        fscanf(fin, "%c%c", magic+0, magic+1);
-        if(magic[0] == 'P' && (magic[1] == '3' || magic[1] == '6'))
+        if(fscanf(fin, "%c%c", magic+0, magic+1) == 2 &&
+           magic[0] == 'P' && (magic[1] == '3' || magic[1] == '6'))
         {
-            fscanf(fin, "%d%d", width, height);
-            retval = 1;
+            retval = fscanf(fin, "%d%d", width, height) == 2 &&
+                     *width>=0 && *height>=0;
         }
         fclose(fin);
     }
@@ -54,9 +54,10 @@ char ppm_valid(const char* name)
     if(fin != NULL)
     {
         char magic[2];
-        fscanf(fin, "%c%c", magic+0, magic+1);
+        retval = fscanf(fin, "%c%c", magic+0, magic+1) == 2;
         fclose(fin);
-        retval = magic[0] == 'P' && (magic[1] == '3' || magic[1] == '6');
+        retval = retval && magic[0] == 'P' &&
+                 (magic[1] == '3' || magic[1] == '6');
     }
     return retval;
 }
@@ -71,40 +72,36 @@ char ppm_read(const char* name, uint32_t* values)
         uint8_t red;
         uint8_t green;
         uint8_t blue;
-        fscanf(fin, "%c%c", magic+0, magic+1);
+        unsigned int width;
+        unsigned int height;
+        uint16_t depth_short;
         /* check magic number to determine if ASCII or binary */
-        if(magic[0] == 'P')
+        if(fscanf(fin, "%c%c", magic+0, magic+1) == 2 && magic[0] == 'P' &&
+           fscanf(fin, "%u%u%hu", &width, &height, &depth_short) == 3 &&
+           depth_short>0)
         {
-            unsigned int width;
-            unsigned int height;
             float depth;
-            uint16_t depth_short;
-            fscanf(fin, "%u%u%hu", &width, &height, &depth_short);
             /* not my fucking problem if the depth is > 65536, the specification
              states that the aforementioned value is the max */
             depth = (float)depth_short;
             if(magic[1] == '3') /* ASCII */
             {
-                char val[6];
-                uint16_t num_val;
-                unsigned int i;
-                for(i = 0; i<width*height; i++)
+                uint16_t num_val[3];
+                unsigned int i = 0;
+                while(i<width*height &&
+                      fscanf(fin, "%hu%hu%hu", num_val+0, num_val+1,
+                             num_val+2) == 3)
                 {
+                    red = (uint8_t)(CLAMP(num_val[0]/depth, 0.f, 1.f)*255);
+                    green = (uint8_t)(CLAMP(num_val[1]/depth, 0.f, 1.f)*255);
+                    blue = (uint8_t)(CLAMP(num_val[2]/depth, 0.f, 1.f)*255);
                     values[i] = 0x000000FF;
-                    fscanf(fin, "%5s", val);
-                    sscanf(val, "%hu", &num_val);
-                    red = (uint8_t)(CLAMP((num_val/depth), 0.f, 1.f)*255);
-                    fscanf(fin, "%5s", val);
-                    sscanf(val, "%hu", &num_val);
-                    green = (uint8_t)(CLAMP((num_val/depth), 0.f, 1.f)*255);
-                    fscanf(fin, "%5s", val);
-                    sscanf(val, "%hu", &num_val);
-                    blue = (uint8_t)(CLAMP((num_val/depth), 0.f, 1.f)*255);
                     values[i] |= red << 8;
                     values[i] |= green << 16;
                     values[i] |= blue << 24;
+                    i++;
                 }
-                retval = 1;
+                retval = i == width*height;
             }
             else if(magic[1] == '6') /* Binary */
             {
@@ -127,9 +124,12 @@ char ppm_read(const char* name, uint32_t* values)
                         x = 0;
                         while(x<width)
                         {
-                            red = (uint8_t)((row[row_idx++]/depth)*255);
-                            green = (uint8_t)((row[row_idx++]/depth)*255);
-                            blue = (uint8_t)((row[row_idx++]/depth)*255);
+                            red = (uint8_t)(CLAMP(row[row_idx]/depth, 0.f, 1.f)*255);
+                            row_idx++;
+                            green = (uint8_t)(CLAMP(row[row_idx]/depth, 0.f, 1.f)*255);
+                            row_idx++;
+                            blue = (uint8_t)(CLAMP(row[row_idx]/depth, 0.f, 1.f)*255);
+                            row_idx++;
                             values[output_idx] = 0x000000FF;
                             values[output_idx] |= red << 8;
                             values[output_idx] |= green << 16;
-- 
2.43.0


From 9557b4e9b47bebeb0f9adf92afea0aad6226cafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:08 +0000
Subject: [PATCH 15/71] fix: survive JPEG errors, read grey JPEG files and
 report failed writes

---
 src/utility/imageio/jpg.c | 101 ++++++++++++++++++++++++++++----------
 src/utility/imageio/jpg.h |   2 +
 2 files changed, 76 insertions(+), 27 deletions(-)

diff --git a/src/utility/imageio/jpg.c b/src/utility/imageio/jpg.c
index 5031ba6..36d21d7 100644
--- a/src/utility/imageio/jpg.c
+++ b/src/utility/imageio/jpg.c
@@ -5,10 +5,40 @@
 
 #define UNUSED(x) (void)(x)
 
+/* Error manager. The base struct must be the first member. */
+struct jpg_error_data
+{
+    struct jpeg_error_mgr base;
+    jmp_buf env; /* where to resume in case of error */
+    char incomplete; /* true if the file ended before the image */
+};
+
 static void jpg_error(j_common_ptr jpg_img)
 {
-    UNUSED(jpg_img);
     /* avoid terminating program if jpg error is encountered */
+    longjmp(((struct jpg_error_data*)jpg_img->err)->env, 1);
+}
+
+static void jpg_message(j_common_ptr jpg_img)
+{
+    UNUSED(jpg_img);
+}
+
+static void jpg_warning(j_common_ptr jpg_img, int level)
+{
+    const int CODE = jpg_img->err->msg_code;
+    if(level<0 && (CODE == JWRN_JPEG_EOF || CODE == JWRN_HIT_MARKER))
+        ((struct jpg_error_data*)jpg_img->err)->incomplete = 1;
+}
+
+static struct jpeg_error_mgr* jpg_error_init(struct jpg_error_data* data)
+{
+    memset(data, 0, sizeof(struct jpg_error_data));
+    jpeg_std_error(&(data->base));
+    data->base.error_exit = jpg_error;
+    data->base.output_message = jpg_message;
+    data->base.emit_message = jpg_warning;
+    return &(data->base);
 }
 
 char jpg_write(const char* name, int width, int height, const uint32_t* data)
@@ -18,13 +48,12 @@ char jpg_write(const char* name, int width, int height, const uint32_t* data)
     if(fout != NULL)
     {
         struct jpeg_compress_struct jpg_img;
-        struct jpeg_error_mgr jpg_err;
+        struct jpg_error_data jpg_err;
         int i;
         JSAMPROW current_row;
         /*not the best thing, but the jpeg functions wants a modifiable array*/
         uint8_t* data_nc = (uint8_t*)malloc(sizeof(uint8_t)*width*height*3);
         memset(&jpg_img, 0, sizeof(jpg_img));
-        memset(&jpg_err, 0, sizeof(jpg_err));
         for(i = 0; i<width*height; i++)
         {
             /* convert BGRA to RGB */
@@ -32,9 +61,14 @@ char jpg_write(const char* name, int width, int height, const uint32_t* data)
             data_nc[i*3+1] = (data[i] & 0x00FF0000) >> 16;
             data_nc[i*3+2] = (data[i] & 0xFF000000) >> 24;
         }
-        jpg_img.err = jpeg_std_error(&jpg_err);
-        jpg_err.error_exit = jpg_error;
-        jpg_err.output_message = jpg_error;
+        jpg_img.err = jpg_error_init(&jpg_err);
+        if(setjmp(jpg_err.env)) /* any error resumes here */
+        {
+            jpeg_destroy_compress(&jpg_img);
+            free(data_nc);
+            fclose(fout);
+            return 0;
+        }
         jpeg_create_compress(&jpg_img);
         jpeg_stdio_dest(&jpg_img, fout);
         jpg_img.image_width = width;
@@ -49,9 +83,8 @@ char jpg_write(const char* name, int width, int height, const uint32_t* data)
             current_row = data_nc+jpg_img.next_scanline*3*width;
             jpeg_write_scanlines(&jpg_img, &current_row, 1);
         }
-        retval = 1;
         jpeg_finish_compress(&jpg_img);
-        fclose(fout);
+        retval = fclose(fout) == 0;
         free(data_nc);
         jpeg_destroy_compress(&jpg_img);
     }
@@ -66,12 +99,15 @@ char jpg_valid(const char* name)
     {
         struct jpeg_decompress_struct jpg_img;
         /* without error handling SIGSEGV will be generated */
-        struct jpeg_error_mgr jpg_err;
+        struct jpg_error_data jpg_err;
         memset(&jpg_img, 0, sizeof(jpg_img));
-        memset(&jpg_err, 0, sizeof(jpg_err));
-        jpg_img.err = jpeg_std_error(&jpg_err);
-        jpg_err.error_exit = jpg_error;
-        jpg_err.output_message = jpg_error;
+        jpg_img.err = jpg_error_init(&jpg_err);
+        if(setjmp(jpg_err.env)) /* any error resumes here */
+        {
+            jpeg_destroy_decompress(&jpg_img);
+            fclose(fin);
+            return 0;
+        }
         jpeg_create_decompress(&jpg_img);
         jpeg_stdio_src(&jpg_img, fin);
         /* check if the header is correct. The actual error handling does
@@ -93,12 +129,15 @@ char jpg_dimensions(const char* name, int* width, int* height)
     {
         struct jpeg_decompress_struct jpg_img;
         /* without error handling SIGSEGV will be generated */
-        struct jpeg_error_mgr jpg_err;
+        struct jpg_error_data jpg_err;
         memset(&jpg_img, 0, sizeof(jpg_img));
-        memset(&jpg_err, 0, sizeof(jpg_err));
-        jpg_img.err = jpeg_std_error(&jpg_err);
-        jpg_err.error_exit = jpg_error;
-        jpg_err.output_message = jpg_error;
+        jpg_img.err = jpg_error_init(&jpg_err);
+        if(setjmp(jpg_err.env)) /* any error resumes here */
+        {
+            jpeg_destroy_decompress(&jpg_img);
+            fclose(fin);
+            return 0;
+        }
         jpeg_create_decompress(&jpg_img);
         jpeg_stdio_src(&jpg_img, fin);
         if(jpeg_read_header(&jpg_img, TRUE) == JPEG_HEADER_OK)
@@ -128,27 +167,34 @@ char jpg_read(const char* name, uint32_t* values)
         int row_len;
         unsigned int x;
         unsigned int y;
-        uint8_t* row;
+        uint8_t* volatile row = NULL; /* modified after the setjmp */
+        JSAMPROW current_row;
         struct jpeg_decompress_struct jpg_img;
         /* without error handling SIGSEGV will be generated */
-        struct jpeg_error_mgr jpg_err;
+        struct jpg_error_data jpg_err;
         memset(&jpg_img, 0, sizeof(jpg_img));
-        memset(&jpg_err, 0, sizeof(jpg_err));
-        jpg_img.err = jpeg_std_error(&jpg_err);
-        jpg_err.error_exit = jpg_error;
-        jpg_err.output_message = jpg_error;
+        jpg_img.err = jpg_error_init(&jpg_err);
+        if(setjmp(jpg_err.env)) /* any error resumes here */
+        {
+            jpeg_destroy_decompress(&jpg_img);
+            free(row);
+            fclose(fin);
+            return 0;
+        }
         jpeg_create_decompress(&jpg_img);
         jpeg_stdio_src(&jpg_img, fin);
         if(jpeg_read_header(&jpg_img, TRUE) == JPEG_HEADER_OK)
         {
+            jpg_img.out_color_space = JCS_RGB; /* also if grayscale */
             jpeg_start_decompress(&jpg_img);
             row_len = jpg_img.output_width*jpg_img.output_components;
             row = (uint8_t*)malloc(sizeof(uint8_t)*row_len);
+            current_row = row;
             retval = 1;
             while(jpg_img.output_scanline<jpg_img.output_height)
             {
                 y = jpg_img.output_scanline;
-                retval &= jpeg_read_scanlines(&jpg_img, &row, 1)>0;
+                retval &= jpeg_read_scanlines(&jpg_img, &current_row, 1)>0;
                 x = 0;
                 while(x<jpg_img.output_width)
                 {
@@ -160,9 +206,10 @@ char jpg_read(const char* name, uint32_t* values)
                     x++;
                 }
             }
-            free(row);
+            jpeg_finish_decompress(&jpg_img);
+            retval &= !jpg_err.incomplete;
         }
-        jpeg_finish_decompress(&jpg_img);
+        free(row);
         jpeg_destroy_decompress(&jpg_img);
         fclose(fin);
     }
diff --git a/src/utility/imageio/jpg.h b/src/utility/imageio/jpg.h
index 2035957..11df2d2 100644
--- a/src/utility/imageio/jpg.h
+++ b/src/utility/imageio/jpg.h
@@ -20,7 +20,9 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <memory.h>
+#include <setjmp.h>
 #include <jpeglib.h>
+#include <jerror.h>
 
 /**
  *  \brief Writes a jpg image
-- 
2.43.0


From 617280868082d84f2428a4458da82fb270631b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:55 +0000
Subject: [PATCH 16/71] fix: survive PNG errors and report failed writes

---
 src/utility/imageio/png.c | 46 +++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/src/utility/imageio/png.c b/src/utility/imageio/png.c
index 51432ab..5dba470 100644
--- a/src/utility/imageio/png.c
+++ b/src/utility/imageio/png.c
@@ -29,6 +29,15 @@ char png_write(const char* name, int width, int height, const uint32_t* data)
         png_img = png_create_write_struct(PNG_LIBPNG_VER_STRING, NULL, NULL,
                                           NULL);
         png_info = png_create_info_struct(png_img);
+        if(setjmp(png_jmpbuf(png_img))) /* any error resumes here */
+        {
+            for(y = 0; y<height; y++)
+                free(rows[y]);
+            free(rows);
+            png_destroy_write_struct(&png_img, &png_info);
+            fclose(fout);
+            return 0;
+        }
         png_init_io(png_img, fout);
         png_set_IHDR(png_img, png_info, width, height,
                      8, PNG_COLOR_TYPE_RGB, PNG_INTERLACE_NONE,
@@ -40,8 +49,7 @@ char png_write(const char* name, int width, int height, const uint32_t* data)
             free(rows[y]);
         free(rows);
         png_destroy_write_struct(&png_img, &png_info);
-        fclose(fout);
-        retval = 1;
+        retval = fclose(fout) == 0; /* data could be still in the buffer */
     }
     return retval;
 }
@@ -53,8 +61,8 @@ char png_valid(const char* name)
     if(fin != NULL)
     {
         uint8_t header[8];
-        fread(header, 1, 8, fin);
-        retval = png_sig_cmp(header, 0, 8) == 0;
+        retval = fread(header, 1, 8, fin) == 8 &&
+                 png_sig_cmp(header, 0, 8) == 0;
         fclose(fin);
     }
     return retval;
@@ -69,12 +77,17 @@ char png_dimensions(const char* name, int* width, int* height)
         uint8_t header[8];
         png_structp png_img;
         png_infop png_info;
-        fread(header, 1, 8, fin);
-        if(png_sig_cmp(header, 0, 8) == 0)
+        if(fread(header, 1, 8, fin) == 8 && png_sig_cmp(header, 0, 8) == 0)
         {
             png_img = png_create_read_struct(PNG_LIBPNG_VER_STRING, NULL, NULL,
                                              NULL);
             png_info = png_create_info_struct(png_img);
+            if(setjmp(png_jmpbuf(png_img))) /* any error resumes here */
+            {
+                png_destroy_read_struct(&png_img, &png_info, NULL);
+                fclose(fin);
+                return 0;
+            }
             png_init_io(png_img, fin);
             png_set_sig_bytes(png_img, 8);
             png_read_info(png_img, png_info);
@@ -97,7 +110,8 @@ char png_read(const char* name, uint32_t* values)
         int y;
         int x;
         uint8_t header[8];
-        png_byte** rows;
+        png_byte** volatile rows = NULL; /* modified after the setjmp */
+        png_byte* volatile pixels = NULL;
         png_structp png_img;
         png_infop png_info;
         int width;
@@ -105,12 +119,19 @@ char png_read(const char* name, uint32_t* values)
         int color_type;
         int bpp;
         int index_rgb;
-        fread(header, 1, 8, fin);
-        if(png_sig_cmp(header, 0, 8) == 0)
+        if(fread(header, 1, 8, fin) == 8 && png_sig_cmp(header, 0, 8) == 0)
         {
             png_img = png_create_read_struct(PNG_LIBPNG_VER_STRING, NULL, NULL,
                                              NULL);
             png_info = png_create_info_struct(png_img);
+            if(setjmp(png_jmpbuf(png_img))) /* any error resumes here */
+            {
+                free(pixels);
+                free(rows);
+                png_destroy_read_struct(&png_img, &png_info, NULL);
+                fclose(fin);
+                return 0;
+            }
             png_init_io(png_img, fin);
             png_set_sig_bytes(png_img, 8);
             png_read_info(png_img, png_info);
@@ -139,8 +160,11 @@ char png_read(const char* name, uint32_t* values)
             /* -------------------------------------------------------------- */
             png_read_update_info(png_img, png_info);
             rows = (png_byte**)malloc(sizeof(png_byte*)*height);
+            pixels = (png_byte*)malloc(sizeof(png_byte)*width*4*height);
+            if(rows == NULL || pixels == NULL)
+                png_error(png_img, "Out of memory");
             for(y = 0; y<height; y++)
-                rows[y] = (png_byte*)malloc(sizeof(png_byte)*width*4);
+                rows[y] = pixels+(size_t)y*width*4;
             png_read_image(png_img, rows);
             index_rgb = 0;
             for(y = 0; y<height; y++)
@@ -152,8 +176,8 @@ char png_read(const char* name, uint32_t* values)
                     values[index_rgb] |= rows[y][x*4+1] << 16;
                     values[index_rgb++] |= rows[y][x*4+0] << 8;
                 }
-                free(rows[y]);
             }
+            free(pixels);
             free(rows);
             png_destroy_read_struct(&png_img, &png_info, NULL);
             retval = index_rgb == width*height;
-- 
2.43.0


From 18387b05f4c122e5e9baed40d0ad4f5b291504ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:30 +0000
Subject: [PATCH 17/71] fix: reject incomplete TIFF files, report failed TIFF
 writes, read TIFF sizes without JPEG support

---
 src/utility/imageio/imageio.c | 2 +-
 src/utility/imageio/tiff.c    | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utility/imageio/imageio.c b/src/utility/imageio/imageio.c
index 5e15257..2e91b12 100644
--- a/src/utility/imageio/imageio.c
+++ b/src/utility/imageio/imageio.c
@@ -76,7 +76,7 @@ char img_dimensions(const char* name, const char* ext,
     else if(strcmp(ext, "png") == 0)
         retval = png_dimensions(name, width, height);
 #endif
-#ifdef JPEG_FOUND
+#ifdef TIFF_FOUND
     else if(strcmp(ext, "tif") == 0 || strcmp(ext, "tiff") == 0)
         retval = tiff_dimensions(name, width, height);
 #endif
diff --git a/src/utility/imageio/tiff.c b/src/utility/imageio/tiff.c
index 36931a9..1ba5e67 100644
--- a/src/utility/imageio/tiff.c
+++ b/src/utility/imageio/tiff.c
@@ -37,8 +37,8 @@ char tiff_write(const char* name, int width, int height, const uint32_t* data)
                 break;
         }
         _TIFFfree(row);
+        retval = y == height && TIFFFlush(fout) == 1;
         TIFFClose(fout);
-        retval = y == height;
     }
     return retval;
 }
@@ -85,15 +85,15 @@ char tiff_read(const char* name, uint32_t* values)
     {
         int width = 0;
         int height = 0;
-        int channels = 0;
+        uint16_t channels = 0;
         uint32_t* data;
         retval |= TIFFGetField(fin, TIFFTAG_IMAGEWIDTH, &width);
         retval &= TIFFGetField(fin, TIFFTAG_IMAGELENGTH, &height);
         retval &= TIFFGetField(fin, TIFFTAG_SAMPLESPERPIXEL, &channels);
         data = (uint32_t*)_TIFFmalloc(sizeof(uint32_t)*width*height);
         /* The first retval is used to ensure channels/width/height are valid */
-        if(retval && (channels == 3 || channels == 4) &&
-           TIFFReadRGBAImage(fin, width, height, data, 0))
+        if(retval && data != NULL && (channels == 3 || channels == 4) &&
+           TIFFReadRGBAImage(fin, width, height, data, 1))
         {
             int x;
             int y;
-- 
2.43.0


From 8930b0615bb65d3dfcc5e20e7a75fd47131c2fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:44 +0000
Subject: [PATCH 18/71] fix: end a rendering with a failure status when the
 image could not be saved

---
 src/localization.h | 1 +
 src/renderer.cpp   | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/localization.h b/src/localization.h
index e3967a2..216003c 100644
--- a/src/localization.h
+++ b/src/localization.h
@@ -96,6 +96,7 @@
 #define MESSAGE_RENDERTIME "Rendering ended (%s)"
 
 #define MESSAGE_IMAGEO "Saving image..."
+#define MESSAGE_IMAGEO_FAIL "Image could not be saved"
 
 #define MESSAGE_BYE "Bye :)"
 
diff --git a/src/renderer.cpp b/src/renderer.cpp
index a5f9620..272edd8 100644
--- a/src/renderer.cpp
+++ b/src/renderer.cpp
@@ -139,10 +139,12 @@ int Renderer::render(Scene* s)
 
     Console.log(MESSAGE_IMAGEO, NULL);
     //save the image
-    Renderer::film.save_image();
+    const bool saved = Renderer::film.save_image();
+    if(!saved)
+        Console.severe(MESSAGE_IMAGEO_FAIL, NULL);
     Console.log(MESSAGE_BYE, NULL);
 
-    return 0;
+    return saved?0:1;
 }
 
 void executor(Camera* camera, ImageFilm* film, std::mutex* lock, int spp,
-- 
2.43.0


From 3ab87b4cf39962ce21ffb1c8112720733fa67eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:26 +0000
Subject: [PATCH 19/71] fix: resolve paths ending in . or .., through single
 letter folders and up to the root

---
 src/utility/file.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/utility/file.cpp b/src/utility/file.cpp
index 60dfb90..aeb3039 100644
--- a/src/utility/file.cpp
+++ b/src/utility/file.cpp
@@ -65,8 +65,8 @@ static void append_relative(const char* abs, const char* relative, char* out)
     unsigned int relative_index = 0;
     if(rel[0] == '.')
     {
-        //resolve ../file
-        if(rel[1] == '.' && rel[2] == File::PATH_SEPARATOR)
+        //resolve ../file and ..
+        if(rel[1] == '.' && (rel[2] == File::PATH_SEPARATOR || rel[2] == 0))
         {
             relative_index = 2;
             //backtrack to previous / in the absolute path
@@ -75,11 +75,20 @@ static void append_relative(const char* abs, const char* relative, char* out)
             while(absolute_index-->min_abs_index &&
                   out[absolute_index] != File::PATH_SEPARATOR);
         }
-        else if(rel[1] == File::PATH_SEPARATOR) //resolve ./file
+        //resolve ./file and .
+        else if(rel[1] == File::PATH_SEPARATOR || rel[1] == 0)
             relative_index = 1;
     }
+#ifndef _WIN32
+    //the root folder already ends with the separator added below
+    if(absolute_index == 1)
+        absolute_index = 0;
+    if(rel[relative_index] != File::PATH_SEPARATOR &&
+        abs[0] != 0)
+#else
     if(rel[relative_index] != File::PATH_SEPARATOR &&
         absolute_index > min_abs_index) //to avoid starting with \\ on win abs
+#endif
     {
         out[absolute_index++] = File::PATH_SEPARATOR;
     }
@@ -111,7 +120,7 @@ static void append_relative(const char* abs, const char* relative, char* out)
                     //avoid out of bounds if too many ../../../
                     if(absolute_index<=min_abs_index+1)
                         continue;
-                    absolute_index -= 2;
+                    //position right on the previous / (replaced by the next one)
                     while((absolute_index--)>min_abs_index &&
                           out[absolute_index] != File::PATH_SEPARATOR);
                     continue;
@@ -130,6 +139,11 @@ static void append_relative(const char* abs, const char* relative, char* out)
         }
         out[absolute_index++] = rel[relative_index++];
     }
+#ifndef _WIN32
+    //everything has been removed by ../ or ./ so this is the root folder
+    if(absolute_index == 0)
+        out[absolute_index++] = File::PATH_SEPARATOR;
+#endif
     //remove last trailing char, if exists and not root trailing
     if(out[absolute_index - 1] == File::PATH_SEPARATOR &&
         absolute_index > min_abs_index +1)
-- 
2.43.0


From 410c36904d0c0b53479a907a8bb693ba4cfeb852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:26 +0000
Subject: [PATCH 20/71] fix: free the old path of an assigned File and survive
 self assignment

---
 src/utility/file.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utility/file.cpp b/src/utility/file.cpp
index aeb3039..ac24cab 100644
--- a/src/utility/file.cpp
+++ b/src/utility/file.cpp
@@ -289,6 +289,9 @@ bool File::is_file() const
 
 File& File::operator=(const File& old)
 {
+    if(this == &old)
+        return *this;
+    free(File::absolute);
     File::absolute = (char*)malloc(sizeof(char)*(strlen(old.absolute)+1));
     strcpy(absolute, old.absolute);
     //recalculate offsets(since I cannot blindly copy pointers of other classes)
-- 
2.43.0


From 7129daebcb1d8f7983915b25cd89c2e4bcd82163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:26 +0000
Subject: [PATCH 21/71] fix: give parent folders their own name and file
 information

---
 src/utility/file.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/utility/file.cpp b/src/utility/file.cpp
index ac24cab..f2ebf4d 100644
--- a/src/utility/file.cpp
+++ b/src/utility/file.cpp
@@ -367,12 +367,13 @@ File File::get_parent() const
             retval.ext = retval.file-1;
             //go back with the file pointer until the last /
             while(i-->max_decrement && file[i] != File::PATH_SEPARATOR);
-            //if not root, point to the filename
-            if(i != max_decrement)
-                retval.file += i+1;
-            //else
-            /* do nothing, already catched in the max_decrement==-1 */;
+            //point to the filename (root already catched in max_decrement==-1)
+            retval.file += i+1;
         }
+#ifndef _WIN32
+        //information about the parent and not about this file
+        retval.statres = stat(retval.absolute, &(retval.fileinfo)) == 0;
+#endif
     }
     return retval;
 }
-- 
2.43.0


From 64778d1d00b2afd0fd308ee704bc400aa5e0d2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 22/71] fix: report configuration errors without overflowing
 the line buffer and with the line of the right file

---
 src/parsers/config_driver.cpp | 20 +++++++++++++-------
 src/parsers/config_lexer.l    |  5 ++++-
 src/parsers/lex.yy.cc         |  5 ++++-
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index ccb2c41..4d32be7 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -171,15 +171,21 @@ void ConfigDriver::error(const yy::location& l, const std::string& m)
     if(l.begin.column<l.end.column && l.begin.line == l.end.line &&
        l.end.column-l.begin.column<=BUFFER-5) //prev. segfault if token len >buf
     {
-        char buf[128];
-        char under[128];
-        int offset = get_line(buf, 128);
-        for(unsigned int i = 0; i<l.begin.column-1-offset; i++)
+        char buf[BUFFER];
+        char under[BUFFER];
+        int offset = get_line(buf, BUFFER);
+        //the token can start before or end after the part of line in the buffer
+        int under_begin = (int)l.begin.column-1-offset;
+        int under_end = (int)end_col-offset;
+        under_end = under_end<0?0:(under_end<BUFFER?under_end:BUFFER-1);
+        under_begin = under_begin<0?0:(under_begin<under_end?under_begin
+                                                            :under_end);
+        for(int i = 0; i<under_begin; i++)
             under[i] = ' ';
-        for(unsigned int i = l.begin.column-1-offset; i<end_col-offset; i++)
+        for(int i = under_begin; i<under_end; i++)
             under[i] = '~';
-        under[end_col-offset] = 0;
-        Console.critical("%s:%d.%d: " BLD "%s" NRM "\n%s\n%" GRN "%s" NRM,
+        under[under_end] = 0;
+        Console.critical("%s:%d.%d: " BLD "%s" NRM "\n%s\n" GRN "%s" NRM,
                          file.c_str(), l.end.line, end_col, m.c_str(), buf,
                          under);
     }
diff --git a/src/parsers/config_lexer.l b/src/parsers/config_lexer.l
index f5f8ff8..ad1972f 100644
--- a/src/parsers/config_lexer.l
+++ b/src/parsers/config_lexer.l
@@ -184,6 +184,7 @@ second {UPDATE_POS; return yy::ConfigParser::make_SECOND(loc);}
 void ConfigDriver::scan_begin()
 {
     errno = 0;
+    loc = yy::location();
     current_pos = 0;
     last_line_pos = 0;
     yyin = fopen(file.c_str(), "r");
@@ -209,7 +210,9 @@ int ConfigDriver::get_line(char* buf,int len)
         line_offset = last_line_pos-line_offset;
     }
     fseek(yyin,last_line_pos,SEEK_SET);
-    fread(buf,sizeof(char),len,yyin);
+    int read = (int)fread(buf,sizeof(char),len,yyin);
+    if(read<len) //end of file
+        buf[read] = 0;
     int i = 0;
     while(i<len)
     {
diff --git a/src/parsers/lex.yy.cc b/src/parsers/lex.yy.cc
index ecb8d8d..b773493 100644
--- a/src/parsers/lex.yy.cc
+++ b/src/parsers/lex.yy.cc
@@ -2572,6 +2572,7 @@ void yyfree (void * ptr )
 void ConfigDriver::scan_begin()
 {
     errno = 0;
+    loc = yy::location();
     current_pos = 0;
     last_line_pos = 0;
     yyin = fopen(file.c_str(), "r");
@@ -2597,7 +2598,9 @@ int ConfigDriver::get_line(char* buf,int len)
         line_offset = last_line_pos-line_offset;
     }
     fseek(yyin,last_line_pos,SEEK_SET);
-    fread(buf,sizeof(char),len,yyin);
+    int read = (int)fread(buf,sizeof(char),len,yyin);
+    if(read<len) //end of file
+        buf[read] = 0;
     int i = 0;
     while(i<len)
     {
-- 
2.43.0


From 85ce627f5c5037dac92c04f96c9ae982695cd90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 23/71] fix: let children files override the settings and
 resolve their paths from the main file folder

---
 src/parsers/config_driver.cpp | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 4d32be7..22006ea 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -52,17 +52,6 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
     yy::ConfigParser parser(*this);
     parser.parse();
     scan_end();
-    check_resolution();
-    check_spp();
-#ifdef DEBUG //single threaded
-    r = new Renderer(width, height, spp, output.c_str(), 1);
-#else //maximum threads
-    r = new Renderer(width,height,spp,output.c_str());
-#endif
-    r->set_sampler(sampler_type);
-    r->inherit_camera(build_camera());
-    r->inherit_filter(build_filter());
-    r->inherit_integrator(integrator);
 
     //load children files
     //avoid recursive children
@@ -70,9 +59,12 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
     children.clear();
     for(unsigned int i = 0; i<consolidated_children.size(); i++)
     {
-        File file1 = is_absolute(consolidated_children[i].c_str())?
-                     File(consolidated_children[i].c_str()):
-                     current_dir.append(consolidated_children[i].c_str());
+        //copy, relative paths are always resolved from the main file folder
+        File file1 = current_dir;
+        if(is_absolute(consolidated_children[i].c_str()))
+            file1 = File(consolidated_children[i].c_str());
+        else
+            file1.append(consolidated_children[i].c_str());
         file = file1.absolute_path();
         if(file1.exists())
         {
@@ -88,6 +80,19 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
     consolidated_children.resize(0);
     children.resize(0);
 
+    //children can override the settings, so these are used after parsing them
+    check_resolution();
+    check_spp();
+#ifdef DEBUG //single threaded
+    r = new Renderer(width, height, spp, output.c_str(), 1);
+#else //maximum threads
+    r = new Renderer(width,height,spp,output.c_str());
+#endif
+    r->set_sampler(sampler_type);
+    r->inherit_camera(build_camera());
+    r->inherit_filter(build_filter());
+    r->inherit_integrator(integrator);
+
     //build default sphere
     default_sphere = new Sphere();
     current_scene->inherit_shape(default_sphere);
-- 
2.43.0


From a967321ed5a6907325635b9943c4676dd2cf0cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 24/71] fix: resolve a relative output path from the folder of
 the input file

---
 src/parsers/config_driver.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 22006ea..bba4f2a 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -83,10 +83,16 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
     //children can override the settings, so these are used after parsing them
     check_resolution();
     check_spp();
+    //relative to the input file, as every other path
+    File out_file = current_dir;
+    if(is_absolute(output.c_str()))
+        out_file = File(output.c_str());
+    else
+        out_file.append(output.c_str());
 #ifdef DEBUG //single threaded
-    r = new Renderer(width, height, spp, output.c_str(), 1);
+    r = new Renderer(width, height, spp, out_file.absolute_path(), 1);
 #else //maximum threads
-    r = new Renderer(width,height,spp,output.c_str());
+    r = new Renderer(width, height, spp, out_file.absolute_path());
 #endif
     r->set_sampler(sampler_type);
     r->inherit_camera(build_camera());
-- 
2.43.0


From 2ce23737949f39440c3a510c2d268e72c5f7e603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 25/71] fix: check every index of OBJ faces and read faces
 without normal indices

---
 src/parsers/parser_obj.cpp | 92 ++++++++++++++------------------------
 1 file changed, 34 insertions(+), 58 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index fbc5757..fd8c7c4 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -14,6 +14,8 @@ static inline void get_next_token(char** source, char* buffer, int max_size,
 
 static inline void feed_buffer(int* read_bytes, char* buffer_ro, FILE* input);
 
+static inline bool resolve_index(long* index, unsigned long size);
+
 ParserObj::ParserObj()
 {
     buffer_ro = NULL;
@@ -229,76 +231,42 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                                    &read_bytes, buffer_ro, fin);
                     char* tk_idx = token; //token index
                     //process face
-                    int vert_idx = 0;
-                    int text_idx = 0;
-                    int norm_idx = 0;
-                    vert_idx = (int)strtol(tk_idx, &tk_idx, 10);
+                    long vert_idx = 0;
+                    long text_idx = 0;
+                    long norm_idx = 0;
+                    vert_idx = strtol(tk_idx, &tk_idx, 10);
                     Vertex res;
-                    if(*tk_idx != '\0')
+                    if(*tk_idx == '/') //v/vt or v/vt/vn or v//vn
                     {
                         tk_idx++;
-                        if(*tk_idx != '/') //v/vt/vn
-                            text_idx = (int)strtol(tk_idx, &tk_idx, 10);
-                        tk_idx++;
-                        norm_idx = (int)strtol(tk_idx, &tk_idx, 10);
-                    }
-                    //check indexes consistency
-                    if(vert_idx != 0)
-                    {
-                        int vert_size = (int)vertices.size();
-                        if(vert_idx<0)
-                            vert_idx = vert_size+vert_idx;
-                        else if(vert_idx>0 && vert_idx<=vert_size)
-                            vert_idx--;
-                        else
+                        if(*tk_idx != '/')
+                            text_idx = strtol(tk_idx, &tk_idx, 10);
+                        if(*tk_idx == '/')
                         {
-                            Console.severe(MESSAGE_INDEX_OBJ,
-                                           path, lineno);
-                            finalize_mesh(obj);
-                            return false;
+                            tk_idx++;
+                            norm_idx = strtol(tk_idx, &tk_idx, 10);
                         }
-                        res.p = vertices.at((unsigned long)vert_idx);
                     }
-                    if(text_idx != 0)
+                    //check indexes consistency. The vertex can not be missing
+                    if(!resolve_index(&vert_idx, vertices.size()) ||
+                       (text_idx != 0 &&
+                        !resolve_index(&text_idx, textures.size())) ||
+                       (norm_idx != 0 &&
+                        !resolve_index(&norm_idx, normals.size())))
                     {
-                        int text_size = (int)textures.size();
-                        if(text_idx<0)
-                            text_idx = text_size+text_idx;
-                        else if(text_idx>0 && text_idx<=text_size)
-                            text_idx--;
-                        else
-                        {
-                            Console.severe(MESSAGE_INDEX_OBJ,
-                                           path, lineno);
-                            finalize_mesh(obj);
-                            return false;
-                        }
-                        res.t = textures.at((unsigned long)text_idx);
+                        Console.severe(MESSAGE_INDEX_OBJ, path, lineno);
+                        finalize_mesh(obj);
+                        return false;
                     }
+                    res.p = vertices[vert_idx-1];
+                    if(text_idx != 0)
+                        res.t = textures[text_idx-1];
                     else
-                    {
                         recreate_textures = true;
-                    }
                     if(norm_idx != 0)
-                    {
-                        int norm_size = (int)normals.size();
-                        if(norm_idx<0)
-                            norm_idx = norm_size+norm_idx;
-                        else if(norm_idx>0 && norm_idx<=norm_size)
-                            norm_idx--;
-                        else
-                        {
-                            Console.severe(MESSAGE_INDEX_OBJ,
-                                           path, lineno);
-                            finalize_mesh(obj);
-                            return false;
-                        }
-                        res.n = normals.at((unsigned long)norm_idx);
-                    }
+                        res.n = normals[norm_idx-1];
                     else
-                    {
                         recreate_normals = true;
-                    }
                     face_tmp.push_back(res);
                     //  Never managed to reach this point.
                     //  TODO: try with non POSIX files
@@ -308,7 +276,7 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                     //     buffer = buffer_ro;
                     // }
                 }
-                if(recreate_normals)
+                if(recreate_normals && face_tmp.size()>=3)
                 {
                     //the normal should be created for the entire face
                     //no risk of losing info: if the normal is missing
@@ -523,3 +491,11 @@ static inline void feed_buffer(int* read_bytes, char* buffer_ro, FILE* input)
     *read_bytes = (int)fread(buffer_ro, sizeof(char), BUFFER_SIZE, input);
     buffer_ro[*read_bytes] = END_OF_BUFFER_GUARD;
 }
+
+//transforms negative (relative) indices to absolute, in range [1,size]
+static inline bool resolve_index(long* index, unsigned long size)
+{
+    if(*index<0)
+        *index = *index+(long)size+1;
+    return *index>0 && *index<=(long)size;
+}
-- 
2.43.0


From 83ab0fdca90e1539b09be90be7ed26ecaeb535d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 26/71] fix: end parsing of OBJ files without a newline at the
 end

---
 src/parsers/parser_obj.cpp | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index fd8c7c4..56ac98c 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -268,13 +268,6 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                     else
                         recreate_normals = true;
                     face_tmp.push_back(res);
-                    //  Never managed to reach this point.
-                    //  TODO: try with non POSIX files
-                    // if(*buffer == END_OF_BUFFER_GUARD)
-                    // {
-                    //     feed_buffer(&read_bytes, buffer_ro, fin);
-                    //     buffer = buffer_ro;
-                    // }
                 }
                 if(recreate_normals && face_tmp.size()>=3)
                 {
@@ -349,6 +342,8 @@ bool ParserObj::get_next_mesh(Mesh* obj)
             {
                 feed_buffer(&read_bytes, buffer_ro, fin);
                 buffer = buffer_ro;
+                if(read_bytes == 0) //file without a newline at the end
+                    break;
             }
             else
                 buffer++;
@@ -449,10 +444,8 @@ static inline void get_next_token(char** source, char* token_buf, int max_size,
             feed_buffer(read_bytes, buffer_ro, input);
             *source = buffer_ro;
             current = **source;
-            //should never happen
-            //TODO: try with non POSIX files
-            //if(current == END_OF_BUFFER_GUARD)
-            //    return;
+            if(*read_bytes == 0) //end of file
+                break;
         }
         else
         {
@@ -469,10 +462,8 @@ static inline void get_next_token(char** source, char* token_buf, int max_size,
             feed_buffer(read_bytes, buffer_ro, input);
             *source = buffer_ro;
             current = **source;
-            //should never happen
-            //TODO: try with non POSIX files
-            //if(current == END_OF_BUFFER_GUARD) //end of file
-            //    break; //break instead of return since I want an ok token
+            if(*read_bytes == 0) //end of file
+                break; //break instead of return since I want an ok token
         }
         else
         {
-- 
2.43.0


From 0a8f2cea99582a673696832fefc3ee4503efd50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 27/71] fix: accept tabs and trailing blanks in OBJ files

---
 src/parsers/parser_obj.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index 56ac98c..686f4f6 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -225,10 +225,14 @@ bool ParserObj::get_next_mesh(Mesh* obj)
             {
                 bool recreate_normals = false;
                 bool recreate_textures = false;
-                while(*buffer == ' ') //load every component of the face
+                //load every component of the face
+                while(*buffer == ' ' || *buffer == '\t')
                 {
                     get_next_token(&buffer, token, TOKEN_SIZE,
                                    &read_bytes, buffer_ro, fin);
+                    //spaces at the end of the line or comment
+                    if(token[0] == '\0' || token[0] == '#')
+                        break;
                     char* tk_idx = token; //token index
                     //process face
                     long vert_idx = 0;
@@ -455,7 +459,8 @@ static inline void get_next_token(char** source, char* token_buf, int max_size,
     }
     //get token
     int i = 0;
-    while(current != ' ' && current != '\n' && current != '\r')
+    while(current != ' ' && current != '\t' && current != '\n' &&
+          current != '\r')
     {
         if(current == END_OF_BUFFER_GUARD)
         {
-- 
2.43.0


From 93e82ae9c7e744b0882b9221c8757a5f90a3414b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 28/71] fix: skip OBJ objects without faces instead of dropping
 the rest of the file

---
 src/parsers/parser_obj.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index 686f4f6..922410f 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -184,8 +184,8 @@ bool ParserObj::get_next_mesh(Mesh* obj)
             }
             case 'o':
             {
-                //old object finished, bail out
-                if(object_name != "")
+                //old object finished, bail out (unless it had no faces)
+                if(object_name != "" && face_no>0)
                 {
                     //since the original get_next_token already ate the 'g'
                     //buffer needs to be decremented. But buffer could have
@@ -203,7 +203,7 @@ bool ParserObj::get_next_mesh(Mesh* obj)
             }
             case 'g':
             {
-                if(object_name != "" && groups_as_names)
+                if(object_name != "" && groups_as_names && face_no>0)
                 {
                     //like in the 'o' switch, but craft a 'g' instead
                     craft_token = 'g';
-- 
2.43.0


From 310630c96d8da26e6672e3926186c91577188033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 29/71] fix: forget the previous OBJ file and free the buffer
 of the parser

---
 src/parsers/parser_obj.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index 922410f..dffa077 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -26,8 +26,8 @@ ParserObj::~ParserObj()
 {
     if(buffer_ro != NULL)
     {
+        free(buffer_ro);
         buffer_ro = NULL;
-        delete buffer_ro;
     }
 }
 
@@ -39,6 +39,9 @@ void ParserObj::start_parsing(const char* path)
     fin = fopen(path, "r");
     groups_as_names = false;
     craft_token = '\0';
+    vertices.clear();
+    textures.clear();
+    normals.clear();
     if(buffer_ro == NULL)
         buffer_ro = (char*)malloc(sizeof(char)*(BUFFER_SIZE+1));
     if(fin != NULL)
@@ -55,8 +58,8 @@ void ParserObj::end_parsing()
 {
     if(buffer_ro != NULL)
     {
+        free(buffer_ro);
         buffer_ro = NULL;
-        delete buffer_ro;
     }
     if(fin != NULL)
     {
-- 
2.43.0


From e4eb7aeb1b7142003b650e6b59e85b5bd437bfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 30/71] fix: do not mix up the materials of objects with more
 than 255 materials

---
 src/localization.h         | 3 +++
 src/parsers/parser_obj.cpp | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/localization.h b/src/localization.h
index 216003c..8cc04ea 100644
--- a/src/localization.h
+++ b/src/localization.h
@@ -162,6 +162,9 @@
 
 #define MESSAGE_MISSING_MATERIAL "Missing material %s for object %s"
 
+#define MESSAGE_MAX_MATERIALS "Material %s for object %s ignored, an object can "\
+"not use more than %d materials"
+
 #define MESSAGE_MISSING_MATERIAL_OVERRIDE MESSAGE_MISSING_MATERIAL " while "\
 "overriding its materials"
 
diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index dffa077..0e0273e 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -1,4 +1,5 @@
 #include "parser_obj.hpp"
+#include <climits>
 
 #ifdef TESTS
 //extreme value to test every case
@@ -173,6 +174,14 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                             Console.warning(MESSAGE_MISSING_MATERIAL,
                                             token, path);
                         }
+                        else if(materials.size() == UCHAR_MAX)
+                        {
+                            //the association can't represent more materials
+                            used_materials.insert({{token, 0}});
+                            current_material = 0;
+                            Console.warning(MESSAGE_MAX_MATERIALS,
+                                            token, path, UCHAR_MAX-1);
+                        }
                         else
                         {
                             current_material = materials.size();
-- 
2.43.0


From 29d992edd690aad8fa6c1160640228a239225d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 31/71] fix: recreate normals of OBJ faces starting with
 aligned vertices

---
 src/parsers/parser_obj.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index 0e0273e..37e9617 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -291,10 +291,19 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                     //no risk of losing info: if the normal is missing
                     //for one vertex it MUST be missing for every vertex
                     //of the face
-                    Vec3 u = face_tmp[1].p-face_tmp[0].p;
-                    Vec3 v = face_tmp[2].p-face_tmp[0].p;
-                    Normal face_normal = (Normal)cross(u, v);
-                    face_normal.normalize();
+                    //The entire face is used since its first three
+                    //vertices could lie on the same line
+                    Vec3 sum(0.f, 0.f, 0.f);
+                    for(int i = 2; i<(int)face_tmp.size(); i++)
+                    {
+                        Vec3 u = face_tmp[i-1].p-face_tmp[0].p;
+                        Vec3 v = face_tmp[i].p-face_tmp[0].p;
+                        sum += cross(u, v);
+                    }
+                    Normal face_normal = (Normal)sum;
+                    //degenerate faces have no normal and are never hit
+                    if(sum.length()>0.f)
+                        face_normal.normalize();
                     for(int i = 0; i<(int)face_tmp.size(); i++)
                         face_tmp[i].n = face_normal;
                 }
-- 
2.43.0


From 7b6986beddd51a10e2864d697ff0d0fd848ad51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:52 +0000
Subject: [PATCH 32/71] fix: repeat textures also at negative coordinates

---
 src/textures/texture_image.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/textures/texture_image.cpp b/src/textures/texture_image.cpp
index e3b03b5..b333e45 100644
--- a/src/textures/texture_image.cpp
+++ b/src/textures/texture_image.cpp
@@ -62,10 +62,10 @@ TexelUnion TextureImage::map_value(const HitPoint* hit) const
     float v = hit->uv.y*scale.y+shift.y;
 
     //apply repeating if uv are outside 0-1 range
-    if(u>1.f)
-        u = u-(int)u;
-    if(v>1.f)
-        v = v-(int)v;
+    if(u<0.f || u>1.f)
+        u = u-floorf(u);
+    if(v<0.f || v>1.f)
+        v = v-floorf(v);
 
     TexelUnion res;
     if(unfiltered)
-- 
2.43.0


From a8468eb801b979e7e24926039ed08ee7ee196d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:52 +0000
Subject: [PATCH 33/71] fix: scale texture differentials by the scale of their
 own coordinate

---
 src/textures/texture_image.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textures/texture_image.cpp b/src/textures/texture_image.cpp
index b333e45..eee6c6a 100644
--- a/src/textures/texture_image.cpp
+++ b/src/textures/texture_image.cpp
@@ -78,8 +78,8 @@ TexelUnion TextureImage::map_value(const HitPoint* hit) const
         {
             //scale dudx dvdx dudy dvdy
             float dudx = hit->du.x*scale.x;
-            float dudy = hit->du.y*scale.y;
-            float dvdx = hit->dv.x*scale.x;
+            float dudy = hit->du.y*scale.x;
+            float dvdx = hit->dv.x*scale.y;
             float dvdy = hit->dv.y*scale.y;
             res = imagemap->filter(u, v, dudx, dvdx, dudy, dvdy);
         }
-- 
2.43.0


From 061dc98962cc67f270cc0c6361ad86d0f7ee61bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:52 +0000
Subject: [PATCH 34/71] fix: wrap bilinear lookups in the first half texel

---
 src/textures/image_map.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index 1c41184..5164c79 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -208,15 +208,18 @@ TexelUnion ImageMap::bilinear(float u, float v, uint8_t level) const
 {
     u = u*side[level]-0.5f;
     v = v*side[level]-0.5f;
-    int x = (int)u;
-    int y = (int)v;
-    float decimal_u = fabsf(u-x); //to avoid corner case where this can be -0.5f
-    float decimal_v = fabsf(v-y);
+    //floor because these can be -1 in the first half of the first texel
+    int x = (int)floorf(u);
+    int y = (int)floorf(v);
+    float decimal_u = u-x;
+    float decimal_v = v-y;
     float int_u = 1.f-decimal_u;
     float int_v = 1.f-decimal_v;
     //wraps texture if filtering happens outside bounds (val+1) = out of texture
     int next_x = (x+1)<=side[level]-1?(x+1):0;
     int next_y = (y+1)<=side[level]-1?(y+1):0;
+    x = x<0?side[level]-1:x;
+    y = y<0?side[level]-1:y;
     const Texel T0 = MIPmap[level]->get(x, y).bgra_texel;
     const Texel T1 = MIPmap[level]->get(next_x, y).bgra_texel;
     const Texel T2 = MIPmap[level]->get(x, next_y).bgra_texel;
-- 
2.43.0


From 46105ac4cec8c83c2caefcd6312b3cf0ed6cc7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:52 +0000
Subject: [PATCH 35/71] fix: do not read beyond the last MIPmap level

---
 src/textures/image_map.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index 5164c79..f5d7de5 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -124,7 +124,7 @@ TexelUnion ImageMapTrilinear::filter(float u, float v, float dudx, float dvdx,
     TexelUnion p0; //retval
     if(chosen<=0.f) //use full size map
         p0 = bilinear(u, v, 0);
-    else if(chosen>maps_no-1) //return the single, most distant pixel
+    else if(chosen>=maps_no-1) //return the single, most distant pixel
         p0 = MIPmap[maps_no-1]->get(0, 0);
     else //perform trilinear interpolation
     {
@@ -179,7 +179,7 @@ TexelUnion ImageMapEWA::filter(float u, float v, float dudx, float dvdx,
     // shorter axis 0 previously catched in an if
     float chosen = max(0.f, maps_no-1+log2f(shorter_axis));
     TexelUnion p0; //retval
-    if(chosen>maps_no-1) //return the single, most distant pixel
+    if(chosen>=maps_no-1) //return the single, most distant pixel
         p0 = MIPmap[maps_no-1]->get(0, 0);
     else
     {
-- 
2.43.0


From d344ec4b9229ebe2b2b3074725a2e2251d3c940f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:52 +0000
Subject: [PATCH 36/71] fix: do not darken textures when blending MIPmap levels

---
 src/textures/image_map.cpp | 44 ++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index f5d7de5..80fef3f 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -6,6 +6,9 @@
 static void downsample(const TexelUnion* in, TexelUnion* out,
                        uint16_t input_side);
 
+//linear interpolation between two texels
+static inline TexelUnion blend(TexelUnion p0, TexelUnion p1, float decimal);
+
 //------------------------ removed because expf not constexpr in macOS ---------
 //constexpr float init_ewa_weight(int step)
 //{
@@ -133,19 +136,7 @@ TexelUnion ImageMapTrilinear::filter(float u, float v, float dudx, float dvdx,
         float decimal = chosen-chosen_below;
         p0 = bilinear(u, v, chosen_below);
         p1 = bilinear(u, v, chosen_below+1);
-        const float other_decimal = 1.f-decimal;
-        p0.bgra_texel.r *= other_decimal;
-        p0.bgra_texel.g *= other_decimal;
-        p0.bgra_texel.b *= other_decimal;
-        p0.bgra_texel.a *= other_decimal;
-        p1.bgra_texel.r *= decimal;
-        p1.bgra_texel.g *= decimal;
-        p1.bgra_texel.b *= decimal;
-        p1.bgra_texel.a *= decimal;
-        p0.bgra_texel.r += p1.bgra_texel.r;
-        p0.bgra_texel.g += p1.bgra_texel.g;
-        p0.bgra_texel.b += p1.bgra_texel.b;
-        p0.bgra_texel.a += p1.bgra_texel.a;
+        p0 = blend(p0, p1, decimal);
     }
     return p0;
 }
@@ -187,19 +178,7 @@ TexelUnion ImageMapEWA::filter(float u, float v, float dudx, float dvdx,
         float decimal = chosen-chosen_below;
         p0 = ewa(u, v, dudx, dvdx, dudy, dvdy, chosen_below);
         TexelUnion p1 = ewa(u, v, dudx, dvdx, dudy, dvdy, chosen_below+1);
-        const float other_decimal = 1.f-decimal;
-        p0.bgra_texel.r *= other_decimal;
-        p0.bgra_texel.g *= other_decimal;
-        p0.bgra_texel.b *= other_decimal;
-        p0.bgra_texel.a *= other_decimal;
-        p1.bgra_texel.r *= decimal;
-        p1.bgra_texel.g *= decimal;
-        p1.bgra_texel.b *= decimal;
-        p1.bgra_texel.a *= decimal;
-        p0.bgra_texel.r += p1.bgra_texel.r;
-        p0.bgra_texel.g += p1.bgra_texel.g;
-        p0.bgra_texel.b += p1.bgra_texel.b;
-        p0.bgra_texel.a += p1.bgra_texel.a;
+        p0 = blend(p0, p1, decimal);
     }
     return p0;
 }
@@ -331,3 +310,16 @@ downsample(const TexelUnion* in, TexelUnion* out, uint16_t input_side)
         }
     }
 }
+
+//rounds to the nearest value, truncating would darken the texture
+static inline TexelUnion blend(TexelUnion p0, TexelUnion p1, float decimal)
+{
+    const Texel T0 = p0.bgra_texel;
+    const Texel T1 = p1.bgra_texel;
+    TexelUnion res;
+    res.bgra_texel.r = (uint8_t)(T0.r+(T1.r-T0.r)*decimal+0.5f);
+    res.bgra_texel.g = (uint8_t)(T0.g+(T1.g-T0.g)*decimal+0.5f);
+    res.bgra_texel.b = (uint8_t)(T0.b+(T1.b-T0.b)*decimal+0.5f);
+    res.bgra_texel.a = (uint8_t)(T0.a+(T1.a-T0.a)*decimal+0.5f);
+    return res;
+}
-- 
2.43.0


From 91f7a2c1af0ea245cb32339754ff0011e80d5aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:52 +0000
Subject: [PATCH 37/71] fix: wrap and weight texels of the EWA filter correctly

---
 src/textures/image_map.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index 80fef3f..c53e5a8 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -6,6 +6,9 @@
 static void downsample(const TexelUnion* in, TexelUnion* out,
                        uint16_t input_side);
 
+//repeats the texture outside of its bounds
+static inline int wrap(int value, int side);
+
 //linear interpolation between two texels
 static inline TexelUnion blend(TexelUnion p0, TexelUnion p1, float decimal);
 
@@ -229,7 +232,7 @@ ImageMapEWA::ewa(float u, float v, float dudx, float dvdx, float dudy,
     dvdy *= side[level];
 
     //calulate ellipse coefficients
-    float a = dvdx*dvdx*+dvdy*dvdy+1.f;
+    float a = dvdx*dvdx+dvdy*dvdy+1.f;
     float b = -2.f*(dudx*dvdx+dudy*dvdy);
     float c = dudx*dudx+dudy*dudy+1.f;
     const float invf = 1.f/(a*c-b*b*.25f);
@@ -256,13 +259,13 @@ ImageMapEWA::ewa(float u, float v, float dudx, float dvdx, float dudy,
     for(int y = v0; y<=v1; y++)
     {
         //wraps texture if ellipse is outside bounds
-        int newy = y<0?side[level]+y:y>side[level]-1?y%side[level]:y;
-        const float voff = newy-v;
+        const int newy = wrap(y, side[level]);
+        const float voff = y-v;
         for(int x = u0; x<=u1; x++)
         {
             //wraps texture if ellipse is outside bounds
-            int newx = x<0?side[level]+x:x>side[level]-1?x%side[level]:x;
-            const float uoff = newx-u;
+            const int newx = wrap(x, side[level]);
+            const float uoff = x-u;
             const float radius2 = a*uoff*uoff+b*voff*uoff+c*voff*voff;
             if(radius2<1.f)
             {
@@ -282,10 +285,11 @@ ImageMapEWA::ewa(float u, float v, float dudx, float dvdx, float dudy,
     }
     float invweigth = 1.f/total_weight;
     TexelUnion retval;
-    retval.bgra_texel.r = resr*invweigth;
-    retval.bgra_texel.g = resg*invweigth;
-    retval.bgra_texel.b = resb*invweigth;
-    retval.bgra_texel.a = resa*invweigth;
+    //rounded, otherwise the texture would be darkened
+    retval.bgra_texel.r = (uint8_t)(resr*invweigth+0.5f);
+    retval.bgra_texel.g = (uint8_t)(resg*invweigth+0.5f);
+    retval.bgra_texel.b = (uint8_t)(resb*invweigth+0.5f);
+    retval.bgra_texel.a = (uint8_t)(resa*invweigth+0.5f);
     return retval;
 }
 
@@ -323,3 +327,9 @@ static inline TexelUnion blend(TexelUnion p0, TexelUnion p1, float decimal)
     res.bgra_texel.a = (uint8_t)(T0.a+(T1.a-T0.a)*decimal+0.5f);
     return res;
 }
+
+static inline int wrap(int value, int side)
+{
+    const int res = value%side;
+    return res<0?res+side:res;
+}
-- 
2.43.0


From bf52c3938d8c5daee15e8a35bf7416b7cd166aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:09 +0000
Subject: [PATCH 38/71] fix: use the default texture when an image can not be
 read

---
 src/textures/texture_image.cpp | 50 +++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/textures/texture_image.cpp b/src/textures/texture_image.cpp
index eee6c6a..0760672 100644
--- a/src/textures/texture_image.cpp
+++ b/src/textures/texture_image.cpp
@@ -1,5 +1,8 @@
 #include "texture_image.hpp"
 
+//the side of an ImageMap is stored in 16 bit
+#define TEXTURE_MAX_SIDE 32768
+
 TextureImage::TextureImage(const File& src, Vec2& shift, Vec2& scale,
                            TextureFilter_t filter):scale(scale), shift(shift)
 {
@@ -12,28 +15,43 @@ TextureImage::TextureImage(const File& src, Vec2& shift, Vec2& scale,
     {
         if(src.readable())
         {
-            int width;
-            int height;
-            img_dimensions(src.absolute_path(), src.extension(),
-                           &width, &height);
-            if(width == height && (height & (height-1)) == 0) //power of 2
+            int width = 0;
+            int height = 0;
+            const char known = img_dimensions(src.absolute_path(),
+                                              src.extension(),
+                                              &width, &height);
+            if(!known)
+            {
+                Console.warning(MESSAGE_TEXTURE_ERROR, src.absolute_path());
+                imagemap = TexLib.get_dflt_map();
+            }
+            else if(width>0 && width<=TEXTURE_MAX_SIDE && width == height &&
+                    (height & (height-1)) == 0) //power of 2
             {
                 uint32_t* bgra_data = (uint32_t*)malloc(width*height*sizeof
                         (uint32_t));
-                img_read8(src.absolute_path(), src.extension(), bgra_data);
-                switch(filter)
+                if(img_read8(src.absolute_path(), src.extension(), bgra_data))
+                {
+                    switch(filter)
+                    {
+                        case UNFILTERED:
+                            imagemap = new ImageMapUnfiltered(bgra_data, width);
+                            break;
+                        case TRILINEAR:
+                            imagemap = new ImageMapTrilinear(bgra_data, width);
+                            break;
+                        case EWA:
+                            imagemap = new ImageMapEWA(bgra_data, width);
+                            break;
+                    }
+                    TexLib.inherit_map(src.absolute_path(), imagemap);
+                }
+                else
                 {
-                    case UNFILTERED:
-                        imagemap = new ImageMapUnfiltered(bgra_data, width);
-                        break;
-                    case TRILINEAR:
-                        imagemap = new ImageMapTrilinear(bgra_data, width);
-                        break;
-                    case EWA:imagemap = new ImageMapEWA(bgra_data, width);
-                        break;
+                    Console.warning(MESSAGE_TEXTURE_ERROR, src.absolute_path());
+                    imagemap = TexLib.get_dflt_map();
                 }
                 free(bgra_data);
-                TexLib.inherit_map(src.absolute_path(), imagemap);
             }
             else
             {
-- 
2.43.0


From d86aca8d052b89c272e63416e62a62d926355007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:49 +0000
Subject: [PATCH 39/71] fix: sample the faces of a mesh in proportion to their
 area

---
 src/primitives/mesh.cpp | 52 ++++++++++++++---------------------------
 1 file changed, 17 insertions(+), 35 deletions(-)

diff --git a/src/primitives/mesh.cpp b/src/primitives/mesh.cpp
index fae5b63..f3eaf6e 100644
--- a/src/primitives/mesh.cpp
+++ b/src/primitives/mesh.cpp
@@ -174,45 +174,27 @@ void Mesh::sample_point(float r0, float r1, const float* densities, Point3* p,
     //flatten the random value between 0.0 and the total area
     float extSample = lerp(r0, 0.0f, densities[count-1]);
 
-    //divide et impera search
-    int start = 0;
-    int end = count-1;
-    int mid;
-    //the sample in the interval [0,1]. After processing the lerp step
-    float sample01;
-
-    //limit cases, they generate infinite loops
-    //first triangle of the array
-    if(extSample<densities[0])
+    //divide et impera search of the first triangle whose cumulative area
+    //exceeds the sample. Triangles without area are never picked
+    unsigned int start = 0;
+    unsigned int end = count-1;
+    while(start<end)
     {
-        sample01 = inverse_lerp(extSample, 0, densities[0]);
-        tris[0].sample_point(sample01, r1, NULL, p, n);
-        return;
-    }
-    //last triangle of the array
-    if(extSample>densities[end-1])
-    {
-        sample01 = inverse_lerp(extSample-densities[end-1], 0,
-                                densities[end]-densities[end-1]);
-        tris[end].sample_point(sample01, r1, NULL, p, n);
-        return;
-    }
-
-    //find the sampled triangle by using cumulative areas (cdf)
-    while(true)
-    {
-        mid = (start+end)/2;
-        //mid contains the value
-        if(densities[mid]<=extSample && densities[mid+1]>extSample)
-            break;
-        else if(densities[mid]>extSample)
+        const unsigned int mid = (start+end)/2;
+        if(densities[mid]>extSample)
             end = mid;
         else
-            start = mid;
+            start = mid+1;
     }
+    //last value of the interval: last triangle with an area
+    while(start>0 && densities[start] == densities[start-1])
+        start--;
 
     //sample the triangle
-    sample01 = inverse_lerp(extSample-densities[mid], 0,
-                            densities[mid+1]-densities[mid]);
-    tris[mid].sample_point(sample01, r1, NULL, p, n);
+    const float previous = start>0?densities[start-1]:0.f;
+    const float span = densities[start]-previous;
+    float sample01 = 0.f;
+    if(span>0.f)
+        sample01 = min(inverse_lerp(extSample-previous, 0, span), 1.f);
+    tris[start].sample_point(sample01, r1, NULL, p, n);
 }
-- 
2.43.0


From 7e004d96fc46fe77664e23cf7deb824b4d82aee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:38 +0000
Subject: [PATCH 40/71] fix: distances and densities of area lights in world
 space units

---
 src/lights/area_light.cpp | 92 +++++++++++++++++----------------------
 src/lights/area_light.hpp |  6 +++
 2 files changed, 47 insertions(+), 51 deletions(-)

diff --git a/src/lights/area_light.cpp b/src/lights/area_light.cpp
index 1b54aa1..9c9580f 100644
--- a/src/lights/area_light.cpp
+++ b/src/lights/area_light.cpp
@@ -29,11 +29,14 @@ Spectrum AreaLight::sample_surface(float r0, float r1, float r2, float r3,
                                    Ray* out, float* pdf) const
 {
     Normal n;
+    Point3 light_point;
     //generate random origin point of the emitted radiance in the surface of the
     //underlying model of the light
-    AreaLight::model->sample_point(r0, r1, cd, &(out->origin), &n);
+    AreaLight::model->sample_point(r0, r1, cd, &light_point, &n);
+    out->origin = AreaLight::objToWorld*light_point;
+    n = transform_normal(n, &(AreaLight::worldToObj));
 
-    //generate random direction (uniform sphere sampling)
+    //generate random direction (uniform sphere sampling), world space
     float z = 1.f-2.f*r2;
     float r = sqrtf(max(0.f, 1.f-z*z));
     float phi = TWO_PI*r3;
@@ -49,8 +52,6 @@ Spectrum AreaLight::sample_surface(float r0, float r1, float r2, float r3,
     //1/2pi instead of 1/4pi because the direction is flipped if wrong
     //so in the end is an hemisphere sampling
     *pdf = AreaLight::invarea*INV_TWOPI;
-    //objspace to world space
-    *out = AreaLight::objToWorld**out;
     return AreaLight::c;
 }
 
@@ -70,67 +71,56 @@ AreaLight::sample_visible_surface(float r0, float r1, const Point3* pos,
     //in the next steps a ray originating from the current_pos and pointing to
     //the sampled point is tested against the light. This because if the sampled
     //point is on the backface, a point facing the current_pos is selected
-    ray.direction = light_point-ray.origin;
-    ray.direction.normalize();
-    HitPoint hit;
-    *distance = FLT_MAX;
-    //will always succeed
-//    bool res=
-    AreaLight::model->intersect(&ray, distance, &hit, &mask);
-    //erase the next if after all the intersections are tried
-    //TODO: now this should never happen and has been commented. Tried
-    //blackbox testing for something like 1 hour, but maybe for newer
-    //shapes this could generate problems so it is left here as a reference
-//    if(!res)
-//    {
-//        bool res=AreaLight::model->intersect(&ray,distance,&hit);
-//        *pdf = 0;
-//        return SPECTRUM_BLACK;
-//    }
-    light_point = ray.apply(*distance);
-    normal = hit.normal_h; //object space
-    *wi = ray.direction;
-    *pdf = (ray.origin.x-light_point.x)*(ray.origin.x-light_point.x)+
-           (ray.origin.y-light_point.y)*(ray.origin.y-light_point.y)+
-           (ray.origin.z-light_point.z)*(ray.origin.z-light_point.z);
-    *pdf /= (absdot(normal, -(*wi))*AreaLight::area);
-    if(std::isinf(*pdf))
+    const Vec3 direction = light_point-ray.origin;
+    *pdf = 0;
+    if(direction.length()>0)
+    {
+        //world space direction
+        *wi = AreaLight::objToWorld*direction;
+        wi->normalize();
+        *pdf = visible_pdf(pos, wi, distance, &normal);
+    }
+    if(*pdf == 0)
     {
-        *pdf = 0;
         *distance = FLT_MAX;
         return SPECTRUM_BLACK;
     }
 
-    //convert wi to world space
-    Spectrum retval;
     if(dot(normal, -(*wi))>0) //cos between ray and hit point normal > 0
-        retval = AreaLight::c;
+        return AreaLight::c;
     else
-        retval = SPECTRUM_BLACK;
-
-    *wi = AreaLight::objToWorld**wi;
-    wi->normalize();
-    return retval;
+        return SPECTRUM_BLACK;
 }
 
-float AreaLight::pdf(const Point3* p, const Vec3* wi) const
+float AreaLight::visible_pdf(const Point3* pos, const Vec3* wi, float* distance,
+                             Normal* normal) const
 {
     Ray ray;
-    ray.origin = AreaLight::worldToObj**p;
+    ray.origin = AreaLight::worldToObj**pos;
     ray.direction = AreaLight::worldToObj**wi;
+    ray.direction.normalize();
     HitPoint hit;
-    float distance = FLT_MAX;
-    //here success is not guaranteed, maybe the wi vector is random
-    //need to check if the intersection can happen
-    bool res = AreaLight::model->intersect(&ray, &distance, &hit, &mask);
-    if(!res)
+    *distance = FLT_MAX;
+    //the intersection may fail, even for points sampled on the light
+    if(!AreaLight::model->intersect(&ray, distance, &hit, &mask))
         return 0;
-    Point3 light_point = ray.apply(distance);
-    float pdf = (ray.origin.x-light_point.x)*(ray.origin.x-light_point.x)+
-                (ray.origin.y-light_point.y)*(ray.origin.y-light_point.y)+
-                (ray.origin.z-light_point.z)*(ray.origin.z-light_point.z);
-    pdf /= (absdot(hit.normal_h, -(ray.direction))*AreaLight::area);
-    return pdf;
+    //the density is expressed in world space units
+    const Point3 light_point = AreaLight::objToWorld*ray.apply(*distance);
+    *normal = transform_normal(hit.normal_h, &(AreaLight::worldToObj));
+    normal->normalize();
+    *distance = light_point.distance(*pos);
+    const float pdf = *distance**distance/
+                      (absdot(*normal, -(*wi))*AreaLight::area);
+    return std::isfinite(pdf)?pdf:0;
+}
+
+float AreaLight::pdf(const Point3* p, const Vec3* wi) const
+{
+    Vec3 direction = *wi;
+    direction.normalize();
+    float distance;
+    Normal normal;
+    return visible_pdf(p, &direction, &distance, &normal);
 }
 
 float AreaLight::pdf(const Ray*) const
diff --git a/src/lights/area_light.hpp b/src/lights/area_light.hpp
index 2c43c65..7f77745 100644
--- a/src/lights/area_light.hpp
+++ b/src/lights/area_light.hpp
@@ -127,6 +127,12 @@ public:
 
 private:
 
+    //Density, for unit of solid angle, of the nearest point of the light in the
+    //direction wi (normalized) from pos, zero if there is none. Distance and
+    //normal of that point are in world space units
+    float visible_pdf(const Point3* pos, const Vec3* wi, float* distance,
+                      Normal* normal) const;
+
     //Emissive spectrum of the light
     Spectrum c;
 
-- 
2.43.0


From d1e44fa5ddb5c1f2c9577e82dd7bf19b50516424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:44 +0000
Subject: [PATCH 41/71] fix: sign of the azimuth in the Oren-Nayar lobe

---
 src/materials/oren_nayar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/materials/oren_nayar.cpp b/src/materials/oren_nayar.cpp
index 2e2d22c..bf70c5a 100644
--- a/src/materials/oren_nayar.cpp
+++ b/src/materials/oren_nayar.cpp
@@ -37,8 +37,8 @@ Spectrum OrenNayar::value(const Vec3* wout, const Vec3* wincident) const
         float cosphiin, cosphiout, sinphiin, sinphiout;
         cosphiin = clamp(wincident->x/sinthetain, -1.f, 1.f);
         cosphiout = clamp(wout->x/sinthetaout, -1.f, 1.f);
-        sinphiin = max(0.f, sqrtf(1.f-cosphiin*cosphiin));
-        sinphiout = max(0.f, sqrtf(1.f-cosphiout*cosphiout));
+        sinphiin = clamp(wincident->y/sinthetain, -1.f, 1.f);
+        sinphiout = clamp(wout->y/sinthetaout, -1.f, 1.f);
         maxcos = max(0.0f, cosphiin*cosphiout+sinphiin*sinphiout);
     }
     else
-- 
2.43.0


From 5390ca19051a1e211040bbdc7498439f73170056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:13 +0000
Subject: [PATCH 42/71] fix: total reflection of smooth glass

---
 src/materials/reflection.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/materials/reflection.cpp b/src/materials/reflection.cpp
index af453d4..d4c2147 100644
--- a/src/materials/reflection.cpp
+++ b/src/materials/reflection.cpp
@@ -100,8 +100,7 @@ Spectrum DielectricReflection::sample_value(const Vec3* wo, Vec3* wi,
         float rperp = (etaicosi-etatcost)/(etaicosi+etatcost);
         float rpar = (etatcosi-etaicost)/(etatcosi+etaicost);
         eval = (rpar*rpar+rperp*rperp)/2.f;
-        eval /= fabsf(wo->z);
     }
-    return eval;
+    return eval/fabsf(wo->z);
 }
 
-- 
2.43.0


From 381aba119d281c9f4756fb93312849adcfed448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:33 +0000
Subject: [PATCH 43/71] fix: density of refracting Blinn facets seen from
 inside

---
 src/materials/microfacet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/materials/microfacet.cpp b/src/materials/microfacet.cpp
index 37bcb78..d330a07 100644
--- a/src/materials/microfacet.cpp
+++ b/src/materials/microfacet.cpp
@@ -179,6 +179,9 @@ float MicrofacetT::pdf(const Vec3* woS, const Vec3* wiS) const
     if(wh.x == 0 && wh.y == 0 && wh.z == 0)
         return 0.f;
     wh.normalize();
+    //same orientation used when sampling
+    if(wh.z*woS->z<0)
+        wh = -wh;
     const float dotwoh = dot(*woS, wh);
     float jacobian = etao*etao*fabsf(dotwoh);
     const float jacobian_denom = (etai*dot(*wiS, wh)+etao*dotwoh);
-- 
2.43.0


From 9659e0e8bc0c9644a70cf5e6901fb9c463a4799f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:33 +0000
Subject: [PATCH 44/71] fix: density of facets is not a number for directions
 along the surface

---
 src/materials/microfacet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/materials/microfacet.cpp b/src/materials/microfacet.cpp
index d330a07..2dc6366 100644
--- a/src/materials/microfacet.cpp
+++ b/src/materials/microfacet.cpp
@@ -41,7 +41,7 @@ Spectrum MicrofacetR::sample_value(const Vec3* wo, Vec3* wi, float r0, float r1,
     wh.normalize();
     *wi = -reflect(*wo, wh);
     wi->normalize();
-    if(wo->z*wi->z<0)
+    if(wo->z*wi->z<=0)
     {
         *pdf = 0;
         return SPECTRUM_BLACK;
@@ -54,7 +54,7 @@ Spectrum MicrofacetR::sample_value(const Vec3* wo, Vec3* wi, float r0, float r1,
 
 float MicrofacetR::pdf(const Vec3* woS, const Vec3* wiS) const
 {
-    if(woS->z*wiS->z<0)
+    if(woS->z*wiS->z<=0)
         return 0.f;
     Vec3 wh = *woS+*wiS;
 //    if(wh.x==0 && wh.y==0 && wh.z == 0) //impossible
-- 
2.43.0


From 15d57bcb3583faaf68a50e506fb52746452f33c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:27 +0000
Subject: [PATCH 45/71] fix: density of directions refracted back to the same
 side of the surface

---
 src/materials/microfacet.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/materials/microfacet.cpp b/src/materials/microfacet.cpp
index 2dc6366..2e255e5 100644
--- a/src/materials/microfacet.cpp
+++ b/src/materials/microfacet.cpp
@@ -145,7 +145,8 @@ Spectrum MicrofacetT::sample_value(const Vec3* woS, Vec3* wiS, float r0,
         etai = eta_i;
     }
     *wiS = refract(*woS, wh, etao/etai);
-    if(wiS->x == 0 && wiS->y == 0 && wiS->z == 0) //Total internal reflection
+    //Total internal reflection or refracted to the same side of the surface
+    if((wiS->x == 0 && wiS->y == 0 && wiS->z == 0) || woS->z*wiS->z>=0)
     {
         *pdf = 0;
         return SPECTRUM_BLACK;
-- 
2.43.0


From c1acbfa3713b97b0ecbc86fc777fa6d619b1887f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:52 +0000
Subject: [PATCH 46/71] fix: lobes beyond the limit overflowed the material

---
 src/materials/multi_bsdf.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/materials/multi_bsdf.cpp b/src/materials/multi_bsdf.cpp
index dd73f5d..8357f20 100644
--- a/src/materials/multi_bsdf.cpp
+++ b/src/materials/multi_bsdf.cpp
@@ -16,13 +16,11 @@ MultiBSDF::~MultiBSDF()
 
 void MultiBSDF::inherit_bdf(Bdf* addme, const Texture* spectrum)
 {
-#ifdef DEBUG
     if(count == _MAX_BDF_)
     {
         Console.severe("Cannot add more Bdfs");
         return;
     }
-#endif
     MultiBSDF::bdfs[count] = addme;
     if(spectrum != NULL)
         MultiBSDF::diffuse[count] = spectrum;
-- 
2.43.0


From 47a9ecdee904b6715afaa7b141ba9352ae6d1349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:52 +0000
Subject: [PATCH 47/71] fix: each lobe of a sampled material is multiplied by
 its own texture

---
 src/materials/multi_bsdf.cpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/materials/multi_bsdf.cpp b/src/materials/multi_bsdf.cpp
index 8357f20..3c7dfc9 100644
--- a/src/materials/multi_bsdf.cpp
+++ b/src/materials/multi_bsdf.cpp
@@ -59,28 +59,30 @@ Spectrum MultiBSDF::sample_value(float r0, float r1, float r2, const Vec3* woW,
     //this could be skipped with an ad-hoc method but... it will loop 2-3 times
     //at max...
     int matchcount = 0;
-    Bdf* matching[_MAX_BDF_];
+    int matching[_MAX_BDF_]; //indices of the matching bdfs
+    *matchedSpec = false;
     if(!matchSpec)
     {
         for(int i = 0; i<MultiBSDF::count; i++)
             if(!(MultiBSDF::bdfs[i]->is_specular()))
-                matching[matchcount++] = bdfs[i];
-        if(matchcount == 0)
-        {
-            //otherwise it will access invalid array positions
-            *pdf = 0.f;
-            return SPECTRUM_BLACK;
-        }
+                matching[matchcount++] = i;
     }
     else
     {
         for(int i = 0; i<MultiBSDF::count; i++)
-            matching[matchcount++] = bdfs[i];
+            matching[matchcount++] = i;
+    }
+    if(matchcount == 0)
+    {
+        //otherwise it will access invalid array positions
+        *pdf = 0.f;
+        return SPECTRUM_BLACK;
     }
 
     int chosen = (int)(r0*matchcount);
     if(chosen == matchcount) //out of array
         chosen--;
+    chosen = matching[chosen];
 
     //transform to shading space
     Vec3 wo_shading = matrix->to_shading(*woW);
@@ -90,9 +92,9 @@ Spectrum MultiBSDF::sample_value(float r0, float r1, float r2, const Vec3* woW,
     Spectrum retval;
     //texture computation is done after the if. Because if this is not specular
     //the result is thrown away
-    retval = matching[chosen]->sample_value(&wo_shading, &wi_shading, r1, r2,
-                                            pdf);
-    if(wi_shading.length() == 0) //total internal reflection
+    retval = bdfs[chosen]->sample_value(&wo_shading, &wi_shading, r1, r2, pdf);
+    //total internal reflection or nothing sampled by the bdf
+    if(*pdf == 0.f || wi_shading.length() == 0)
     {
         *pdf = 0.f;
         return SPECTRUM_BLACK;
@@ -104,7 +106,7 @@ Spectrum MultiBSDF::sample_value(float r0, float r1, float r2, const Vec3* woW,
     *wiW = matrix->to_world(wi_shading);
     //if not specular, throw away retval and compute the value for the generated
     //pair of directions
-    if(!matching[chosen]->is_specular())
+    if(!bdfs[chosen]->is_specular())
     {
         *matchedSpec = false;
         char flags;
@@ -119,7 +121,7 @@ Spectrum MultiBSDF::sample_value(float r0, float r1, float r2, const Vec3* woW,
             if(bdfs[i]->matches(flags))//add contribution only if matches
             {
                 retval += bdfs[i]->value(&wo_shading, &wi_shading)*
-                          diffuse[chosen]->map(h);
+                          diffuse[i]->map(h);
                 *pdf += bdfs[i]->pdf(&wo_shading, &wi_shading);
             }
         }
-- 
2.43.0


From 518ca0d2471da8380ba75731729d6e7b799d801f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:39 +0000
Subject: [PATCH 48/71] fix: rotations of shapes and lights are given in
 degrees

---
 src/parsers/config_driver.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index bba4f2a..a84f649 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -634,9 +634,9 @@ void ConfigDriver::build_meshes()
         Matrix4 rotz_matrix;
         Matrix4 scale_matrix;
         position_matrix.set_translation(mesh_w.position);
-        rotx_matrix.set_rotate_x(mesh_w.rotation.x);
-        roty_matrix.set_rotate_y(mesh_w.rotation.y);
-        rotz_matrix.set_rotate_z(mesh_w.rotation.z);
+        rotx_matrix.set_rotate_x(radians(mesh_w.rotation.x));
+        roty_matrix.set_rotate_y(radians(mesh_w.rotation.y));
+        rotz_matrix.set_rotate_z(radians(mesh_w.rotation.z));
         rotation_matrix = rotz_matrix*roty_matrix*rotx_matrix;
         scale_matrix.set_scale(mesh_w.scale);
         //watchout the order!!!
-- 
2.43.0


From d72df33bd60b3d499fa0b742b8ebf554a1104622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:39 +0000
Subject: [PATCH 49/71] fix: textures were searched by the filename of a path
 instead of by name

---
 src/parsers/config_driver.cpp | 21 +++++++++++++++++----
 src/parsers/config_driver.hpp |  3 +++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index a84f649..5222167 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -309,6 +309,19 @@ const TextureImage* ConfigDriver::load_texture(const std::string& path)
     return addme;
 }
 
+const TextureImage* ConfigDriver::find_texture(const std::string& name)
+{
+    //names in the library come before paths on disk
+    const TextureImage* retval = TexLib.get_texture(name);
+    if(retval == NULL)
+    {
+        //different paths with the same filename are different textures
+        tex_name = name;
+        retval = load_texture(name);
+    }
+    return retval;
+}
+
 void ConfigDriver::build_materials()
 {
     ParsedMaterial* mat;
@@ -334,7 +347,7 @@ void ConfigDriver::build_materials()
             if(mat->diffuse.empty())
                 diffuse = TexLib.get_dflt_teximage();
             else
-                diffuse = load_texture(mat->diffuse);
+                diffuse = find_texture(mat->diffuse);
         }
         else
             diffuse = mat->diffuse_uniform;
@@ -345,7 +358,7 @@ void ConfigDriver::build_materials()
             if(mat->specular.empty())
                 specular = TexLib.get_dflt_teximage();
             else
-                specular = load_texture(mat->specular);
+                specular = find_texture(mat->specular);
         }
         else
             specular = mat->specular_uniform;
@@ -372,7 +385,7 @@ void ConfigDriver::build_materials()
                        (const TextureImage*)load_texture(mat->bump), RED);
             ```
              */
-            bump_map = new TextureNormal((const TextureImage*)load_texture(mat->bump));
+            bump_map = new TextureNormal(find_texture(mat->bump));
         }
         else
             bump_map = new Bump();
@@ -716,7 +729,7 @@ MaskBoolean ConfigDriver::build_mask(const ParsedMask& mask)
         map = NULL;
     else
     {
-        map = load_texture(mask.mask_tex);
+        map = find_texture(mask.mask_tex);
     }
     return MaskBoolean(map, mask.mask_chn, mask.mask_inv);
 }
diff --git a/src/parsers/config_driver.hpp b/src/parsers/config_driver.hpp
index 43a9523..6469beb 100644
--- a/src/parsers/config_driver.hpp
+++ b/src/parsers/config_driver.hpp
@@ -392,6 +392,9 @@ public:
     ///Load a texture and the corresponding map given the path on disk
     const TextureImage* load_texture(const std::string& path);
 
+    ///Search a texture by name in the library, or load it if it is a path
+    const TextureImage* find_texture(const std::string& name);
+
     ///Hold all the maps, used to set them the filter after parsing
     std::vector<ImageMap*> all_textures;
 
-- 
2.43.0


From 6ee064298f232a92be155cd794c830d8bf19f439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:39 +0000
Subject: [PATCH 50/71] fix: a missing normal map tilted every normal

---
 src/parsers/config_driver.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 5222167..98364fc 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -385,7 +385,12 @@ void ConfigDriver::build_materials()
                        (const TextureImage*)load_texture(mat->bump), RED);
             ```
              */
-            bump_map = new TextureNormal(find_texture(mat->bump));
+            const TextureImage* normal_map = find_texture(mat->bump);
+            //every value of the default texture is a slanted normal
+            if(normal_map != TexLib.get_dflt_teximage())
+                bump_map = new TextureNormal(normal_map);
+            else
+                bump_map = new Bump();
         }
         else
             bump_map = new Bump();
-- 
2.43.0


From 02e82bc6590aa7b31122fde23eaf4e374f6b35c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:39 +0000
Subject: [PATCH 51/71] fix: an inverted mask without texture hid everything

---
 src/parsers/config_driver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 98364fc..984ee55 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -735,6 +735,9 @@ MaskBoolean ConfigDriver::build_mask(const ParsedMask& mask)
     else
     {
         map = find_texture(mask.mask_tex);
+        //if the texture can't be found the mask is disabled, even if inverted
+        if(map == TexLib.get_dflt_teximage())
+            map = NULL;
     }
     return MaskBoolean(map, mask.mask_chn, mask.mask_inv);
 }
-- 
2.43.0


From 40942690c21fff2d91701ab5a1bdb5245ccfe3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:22 +0000
Subject: [PATCH 52/71] fix: assigning a block array leaked its values or lost
 them

---
 src/utility/array2D.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utility/array2D.hpp b/src/utility/array2D.hpp
index 3425f69..beb90f4 100644
--- a/src/utility/array2D.hpp
+++ b/src/utility/array2D.hpp
@@ -204,6 +204,9 @@ public:
     ///Copy-assignment operator
     Array2D& operator=(const Array2D& other)
     {
+        if(this == &other)
+            return *this;
+        free(data);
         blocks_no_side = other.blocks_no_side;
         size_t array_len = blocks_no_side*blocks_no_side*BLOCK_SIDE*BLOCK_SIDE;
         array_len *= sizeof(T);
-- 
2.43.0


From 08ba9a3e47bfdefb79ca3af667a377e88466e792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:05 +0000
Subject: [PATCH 53/71] fix: matrices of small objects were considered singular

---
 src/geometry/matrix4.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry/matrix4.cpp b/src/geometry/matrix4.cpp
index 0ed5f94..5594207 100644
--- a/src/geometry/matrix4.cpp
+++ b/src/geometry/matrix4.cpp
@@ -409,7 +409,8 @@ bool Matrix4::inverse(Matrix4* output) const
     det = Matrix4::m00*inv[0]+Matrix4::m01*inv[4]
           +Matrix4::m02*inv[8]+Matrix4::m03*inv[12];
 
-    if(flt_equal(det, 0.0f))
+    //a small object has a small determinant too, it can still be inverted
+    if(det == 0.0f)
         return false;
 
     det = 1.0f/det;
-- 
2.43.0


From 6b8d486dcd7bce3f70f185d447ac068dbd8a9aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:05 +0000
Subject: [PATCH 54/71] fix: neighbour rays of the orthographic camera were not
 one pixel apart

---
 src/cameras/camera_orthographic.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/cameras/camera_orthographic.cpp b/src/cameras/camera_orthographic.cpp
index 219c1ba..ac8ecaa 100644
--- a/src/cameras/camera_orthographic.cpp
+++ b/src/cameras/camera_orthographic.cpp
@@ -58,20 +58,16 @@ CameraOrthographic::CameraOrthographic(const Point3* pos, const Point3* target,
     Matrix4 raster2screen(values);
     raster2world *= screen2camera;
     raster2world *= raster2screen;
-    Matrix4 raster2camera;
-    raster2camera.set_identity();
-    raster2camera *= screen2camera;
-    raster2camera *= raster2screen;
-    dx = raster2camera*Vec3(1, 0, 0);
-    dy = raster2camera*Vec3(0, -1, 0);
+    dx = raster2world*Vec3(1, 0, 0);
+    dy = raster2world*Vec3(0, 1, 0);
 }
 
 void CameraOrthographic::create_ray(const Sample* spl, Ray* ray, Ray* rx,
                                     Ray* ry) const
 {
     ray->origin = raster2world*Point3(spl->posx, spl->posy, 0);
-    rx->origin = raster2world*Point3(spl->posx+dx.x, spl->posy+dx.y, dx.z);
-    ry->origin = raster2world*Point3(spl->posx+dy.x, spl->posy+dy.y, dy.z);
+    rx->origin = ray->origin+dx;
+    ry->origin = ray->origin+dy;
     ray->direction = camera2world*Vec3(0, 0, 1);
     rx->direction = ray->direction;
     ry->direction = ray->direction;
-- 
2.43.0


From 60707ece642fa6a9a71ffeca7aa644d2868135b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:05 +0000
Subject: [PATCH 55/71] fix: the field of view of the input file is in degrees

---
 src/parsers/config_driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 984ee55..f8d2391 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -257,7 +257,7 @@ Camera* ConfigDriver::build_camera()
         case SPECTRE_CAMERA_PERSPECTIVE:
         default:
             camera = new CameraPerspective(&camera_pos, &camera_tar, &camera_up,
-                                           width, height, fov);
+                                           width, height, radians(fov));
             break;
     }
     return camera;
-- 
2.43.0


From f6b526915c5d19d05d6f2866580b90ab70553ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:26 +0000
Subject: [PATCH 56/71] fix: a negative zero in a direction missed the box

---
 src/geometry/AABB.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geometry/AABB.cpp b/src/geometry/AABB.cpp
index 8eddea5..1b9b070 100644
--- a/src/geometry/AABB.cpp
+++ b/src/geometry/AABB.cpp
@@ -100,7 +100,7 @@ bool AABB::intersect(const Ray* r, float* p1, float* p2) const
     float invx = 1.f/r->direction.x;
     float invy = 1.f/r->direction.y;
     float invz = 1.f/r->direction.z;
-    if(r->direction.x>=0)
+    if(invx>=0)
     {
         minxt = (bounds[0].x-r->origin.x)*invx;
         maxxt = (bounds[1].x-r->origin.x)*invx;
@@ -110,7 +110,7 @@ bool AABB::intersect(const Ray* r, float* p1, float* p2) const
         minxt = (bounds[1].x-r->origin.x)*invx;
         maxxt = (bounds[0].x-r->origin.x)*invx;
     }
-    if(r->direction.y>=0)
+    if(invy>=0)
     {
         minyt = (bounds[0].y-r->origin.y)*invy;
         maxyt = (bounds[1].y-r->origin.y)*invy;
@@ -128,7 +128,7 @@ bool AABB::intersect(const Ray* r, float* p1, float* p2) const
     if(maxyt<maxxt)
         maxxt = maxyt;
 
-    if(r->direction.z>=0)
+    if(invz>=0)
     {
         minzt = (bounds[0].z-r->origin.z)*invz;
         maxzt = (bounds[1].z-r->origin.z)*invz;
-- 
2.43.0


From c8e5ff0e6ad9a98d28c00c4a2d7ffeeb87616a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:26 +0000
Subject: [PATCH 57/71] fix: a ray in the plane of a face was always said to
 hit the box

---
 src/geometry/AABB.cpp | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/geometry/AABB.cpp b/src/geometry/AABB.cpp
index 1b9b070..a262a6b 100644
--- a/src/geometry/AABB.cpp
+++ b/src/geometry/AABB.cpp
@@ -123,10 +123,9 @@ bool AABB::intersect(const Ray* r, float* p1, float* p2) const
 
     if((minyt>maxxt) || (minxt>maxyt))
         return false;
-    if(minyt>minxt)
-        minxt = minyt;
-    if(maxyt<maxxt)
-        maxxt = maxyt;
+    //fmaxf and fminf ignore the NaN of a ray lying on a face of the box
+    minxt = fmaxf(minxt, minyt);
+    maxxt = fminf(maxxt, maxyt);
 
     if(invz>=0)
     {
@@ -141,10 +140,9 @@ bool AABB::intersect(const Ray* r, float* p1, float* p2) const
 
     if((minzt>maxxt) || (minxt>maxzt))
         return false;
-    if(minzt>minxt)
-        minxt = minzt;
-    if(maxzt<maxxt)
-        maxxt = maxzt;
+    //fmaxf and fminf ignore the NaN of a ray lying on a face of the box
+    minxt = fmaxf(minxt, minzt);
+    maxxt = fminf(maxxt, maxzt);
     *p1 = minxt;
     *p2 = maxxt;
     return true;
@@ -162,20 +160,18 @@ const
 
     if(mint>maxyt || minyt>maxt)
         return false;
-    if(minyt>mint)
-        mint = minyt;
-    if(maxyt<maxt)
-        maxt = maxyt;
+    //fmaxf and fminf ignore the NaN of a ray lying on a face of the box
+    mint = fmaxf(mint, minyt);
+    maxt = fminf(maxt, maxyt);
 
     minyt = (bounds[p->isZInvNeg].z-r->origin.z)*p->inverseZ;
     maxyt = (bounds[1-p->isZInvNeg].z-r->origin.z)*p->inverseZ;
 
     if(mint>maxyt || minyt>maxt)
         return false;
-    if(minyt>mint)
-        mint = minyt;
-    if(maxyt<maxt)
-        maxt = maxyt;
+    //fmaxf and fminf ignore the NaN of a ray lying on a face of the box
+    mint = fmaxf(mint, minyt);
+    maxt = fminf(maxt, maxyt);
     *p1 = mint;
     *p2 = maxt;
     return true;
-- 
2.43.0


From 8e34e5677cbbd92a63dfcddee322237d0f86e0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:06 +0000
Subject: [PATCH 58/71] fix: the emission of a light that was hit was counted
 twice

---
 src/integrators/ray_tracer.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/integrators/ray_tracer.cpp b/src/integrators/ray_tracer.cpp
index 163d0a9..112ae2a 100644
--- a/src/integrators/ray_tracer.cpp
+++ b/src/integrators/ray_tracer.cpp
@@ -10,9 +10,6 @@ direct_l(const Scene* sc, const HitPoint* hp, const Ray* r, Sampler* sam,
 {
     Spectrum L = SPECTRUM_BLACK;
     int nlights = sc->size_lights();
-    if(hp->asset_h->is_light())
-        if(dot(*normal_s, -r->direction)>0)
-            L += ((AreaLight*)hp->asset_h)->emissive_spectrum();
     if(nlights>0)
     {
         float rand[6];
-- 
2.43.0


From 6312233a740fca08fe18e0f97d9034e0990f723c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:06 +0000
Subject: [PATCH 59/71] fix: the light was divided by the number of lights

---
 src/integrators/ray_tracer.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/integrators/ray_tracer.cpp b/src/integrators/ray_tracer.cpp
index 112ae2a..3b3a439 100644
--- a/src/integrators/ray_tracer.cpp
+++ b/src/integrators/ray_tracer.cpp
@@ -39,8 +39,8 @@ direct_l(const Scene* sc, const HitPoint* hp, const Ray* r, Sampler* sam,
                 {
                     float weight = (lightpdf*lightpdf)/
                                    (lightpdf*lightpdf+bsdfpdf*bsdfpdf);
-                    L += bsdf_f*direct_l*absdot(wi, *normal_s)*weight/
-                         lightpdf;
+                    L += bsdf_f*direct_l*absdot(wi, *normal_s)*weight*
+                         (float)nlights/lightpdf;
                 }
             }
         }
@@ -65,7 +65,8 @@ direct_l(const Scene* sc, const HitPoint* hp, const Ray* r, Sampler* sam,
                     if(dot(h2.normal_h, -r2.direction)>0)
                     {
                         Spectrum rad = light->emissive_spectrum();
-                        L += bsdf_f*rad*absdot(wi, *normal_s)*w/bsdfpdf;
+                        L += bsdf_f*rad*absdot(wi, *normal_s)*w*
+                             (float)nlights/bsdfpdf;
                     }
         }
     }
-- 
2.43.0


From a950c60c0efa28cbaeffad97a1dadebdfcc4cd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:06 +0000
Subject: [PATCH 60/71] fix: paths surviving the russian roulette were darkened

---
 src/integrators/path_tracer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/integrators/path_tracer.cpp b/src/integrators/path_tracer.cpp
index 6f19314..da49c41 100644
--- a/src/integrators/path_tracer.cpp
+++ b/src/integrators/path_tracer.cpp
@@ -41,10 +41,10 @@ Spectrum PathTracer::l_rec(const Scene* sc, const HitPoint* hp, const Ray* r,
     if(r->ricochet>3)
     {
         float term = min(power->luminance(), 0.5f);
-        if(rand[0]<term)
+        if(rand[0]>=term)
             return retval;
         else
-            rrprob = term; //survived russian roulette, need to cut down contrib
+            rrprob = 1.f/term; //survived, speaks for the terminated paths too
     }
     if(r->ricochet == DEFAULT_BOUNCES)
         return retval;
-- 
2.43.0


From 23f12aeb8c9d9f69b661f483771bc8fa0cdbd622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:43 +0000
Subject: [PATCH 61/71] fix: colours outside of Adobe RGB became NaN

The negative channels were raised to a fractional power.
---
 src/utility/color.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utility/color.cpp b/src/utility/color.cpp
index 22b76bc..1bca0e7 100644
--- a/src/utility/color.cpp
+++ b/src/utility/color.cpp
@@ -188,6 +188,11 @@ ColorRGB ColorXYZ::to_AdobeRGB() const
     float g = x*-0.96924f+y*1.87597f+z*0.03342f;
     float b = x*0.01344f+y*-0.11836f+z*1.34926f;
 
+    //outside the gamut, a negative number has no real power
+    r = r<0.f?0.f:r;
+    g = g<0.f?0.f:g;
+    b = b<0.f?0.f:b;
+
     return ColorRGB((float)pow(r, EXP),
                     (float)pow(g, EXP),
                     (float)pow(b, EXP));
-- 
2.43.0


From 33ef88ad2f8978c1dd3bfff0791d759c4cbd09ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:43 +0000
Subject: [PATCH 62/71] fix: spectra were made from the companded sRGB values

In the spectral build the colours of the input came out too bright, while
the RGB build already converted the companded values to linear ones.
---
 src/utility/spectrum.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/utility/spectrum.cpp b/src/utility/spectrum.cpp
index f554031..d583115 100644
--- a/src/utility/spectrum.cpp
+++ b/src/utility/spectrum.cpp
@@ -365,6 +365,17 @@ const Spectrum SPECTRUM_WHITE = SPECTRUM_ONE;
 
 #endif
 
+#ifdef SPECTRAL
+///Remove the sRGB companding from a single channel
+static float linear(float v)
+{
+    if(v>0.04045f)
+        return powf((v+0.055f)/1.055f, 2.4f);
+    else
+        return v/12.92f;
+}
+#endif
+
 Spectrum::Spectrum(int t)
 {
     if(t == 0) //black
@@ -480,6 +491,10 @@ Spectrum::Spectrum(ColorRGB c, bool l)
 {
 #ifdef SPECTRAL
     memset(Spectrum::w,0,sizeof(float)*SPECTRUM_SAMPLES);
+    //the spectra are weighted by the linear values, not by the sRGB ones
+    c.r = linear(c.r);
+    c.g = linear(c.g);
+    c.b = linear(c.b);
     if(!l)
     {
         if(c.r<=c.g && c.r<=c.b)
-- 
2.43.0


From 012fde5acc983357dc1b6ddfb33af385000973f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:23 +0000
Subject: [PATCH 63/71] fix: shading frames of smooth meshes were not
 orthonormal

---
 src/materials/shading_space.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/materials/shading_space.cpp b/src/materials/shading_space.cpp
index 1babbe9..727cedd 100644
--- a/src/materials/shading_space.cpp
+++ b/src/materials/shading_space.cpp
@@ -4,9 +4,15 @@
 #include "shading_space.hpp"
 
 ShadingSpace::ShadingSpace(const HitPoint* hp)
-        :s(hp->dpdu), n(hp->normal_h)
+        :n(hp->normal_h)
 {
-    t = cross(Vec3(n), s).normalize();
+    //the interpolated normal of a mesh is not orthogonal to dpdu
+    const Vec3 nv(n);
+    s = hp->dpdu-nv*dot(nv, hp->dpdu);
+    if(s.length() <= 1e-5f*hp->dpdu.length()) //dpdu along the normal
+        s = cross(nv, fabsf(n.x)>0.5f ? Vec3(0, 1, 0) : Vec3(1, 0, 0));
+    s.normalize();
+    t = cross(nv, s).normalize();
 }
 
 Vec3 ShadingSpace::to_world(const Vec3& shading) const
-- 
2.43.0


From 17a86c23987e22970d33b561abef439558ed3e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:45 +0000
Subject: [PATCH 64/71] fix: texture footprints were not in the units of the
 texture coordinates

---
 src/primitives/asset.cpp        |  3 +--
 src/primitives/hit_point.cpp    |  4 +++-
 src/textures/texture_height.cpp |  8 ++++++--
 src/textures/texture_normal.cpp | 12 ++++++++----
 4 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/primitives/asset.cpp b/src/primitives/asset.cpp
index b64b3fe..ea2e54d 100644
--- a/src/primitives/asset.cpp
+++ b/src/primitives/asset.cpp
@@ -43,8 +43,7 @@ Asset::intersect(const Ray* ray_world, float* distance, HitPoint* hit) const
         hit->dpdu = objToWorld*hit->dpdu;
         hit->dpdv = objToWorld*hit->dpdv;
         hit->normal_h.normalize();
-        hit->dpdu.normalize();
-        hit->dpdv.normalize();
+        //dpdu and dpdv keep their length: texture footprints depend on it
     }
     return res;
 }
diff --git a/src/primitives/hit_point.cpp b/src/primitives/hit_point.cpp
index 9285906..3c8218a 100644
--- a/src/primitives/hit_point.cpp
+++ b/src/primitives/hit_point.cpp
@@ -53,7 +53,9 @@ void calculate_differentials(HitPoint* hit, Ray* rx, Ray* ry)
     float by1 = py[axes1]-hit->point_h[axes1];
 
     float det = a00*a11-a01*a10;
-    if(fabsf(det)>1e-5f)
+    //relative to the tangents, so the size of the surface does not matter
+    const float len = sqrtf((a00*a00+a10*a10)*(a01*a01+a11*a11));
+    if(fabsf(det)>1e-4f*len)
     {
         float invdet = 1.f/det;
         hit->du.x = (a11*bx0-a01*bx1)*invdet;
diff --git a/src/textures/texture_height.cpp b/src/textures/texture_height.cpp
index 74113b0..a5e0e36 100644
--- a/src/textures/texture_height.cpp
+++ b/src/textures/texture_height.cpp
@@ -66,8 +66,12 @@ TextureHeight::bump(const HitPoint* hp, ShadingSpace* matrix,
     float u, v;
     gradient(hp, &u, &v);
 
-    Vec3 dpdu = hp->dpdu+(Vec3)(hp->normal_h*(u-dot(hp->normal_h, hp->dpdu)));
-    Vec3 dpdv = hp->dpdv+(Vec3)(hp->normal_h*(v-dot(hp->normal_h, hp->dpdv)));
+    Vec3 dpdu = hp->dpdu;
+    Vec3 dpdv = hp->dpdv;
+    dpdu.normalize();
+    dpdv.normalize();
+    dpdu = dpdu+(Vec3)(hp->normal_h*(u-dot(hp->normal_h, dpdu)));
+    dpdv = dpdv+(Vec3)(hp->normal_h*(v-dot(hp->normal_h, dpdv)));
     matrix->n = (Normal)cross(dpdu, dpdv).normalize();
     matrix->s = (dpdu-(Vec3)(matrix->n)*dot(dpdu, matrix->n)).normalize();
     matrix->t = cross(Vec3(matrix->n), matrix->s).normalize();
diff --git a/src/textures/texture_normal.cpp b/src/textures/texture_normal.cpp
index 0a85d36..23c09b7 100644
--- a/src/textures/texture_normal.cpp
+++ b/src/textures/texture_normal.cpp
@@ -29,14 +29,18 @@ TextureNormal::bump(const HitPoint* hp, ShadingSpace* matrix,
 
     Vec3 normal_shading(x, y, z);
 
+    Vec3 dpdu = hp->dpdu;
+    Vec3 dpdv = hp->dpdv;
+    dpdu.normalize();
+    dpdv.normalize();
+
     ShadingSpace old;
-    old.s = hp->dpdu;
-    old.n = (Normal)cross(hp->dpdu, hp->dpdv).normalize();
+    old.s = dpdu;
+    old.n = (Normal)cross(dpdu, dpdv).normalize();
     old.t = cross(old.s, (Vec3)old.n).normalize();
 
     matrix->n = (Normal)(old.to_world(normal_shading)).normalize();
-    matrix->s = (hp->dpdu-
-                 (Vec3)(matrix->n*dot(matrix->n, hp->dpdu))).normalize();
+    matrix->s = (dpdu-(Vec3)(matrix->n*dot(matrix->n, dpdu))).normalize();
     matrix->t = cross(Vec3(matrix->n), matrix->s).normalize();
     *normal = matrix->n;
     if(dot(*normal,hp->normal_h)<0)
-- 
2.43.0


From 1c4b4fcfa1fa05e3e3bc88a0ff51f1c0362aaa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:45 +0000
Subject: [PATCH 65/71] fix: masks were filtered with the footprint of the
 previous sample

---
 src/renderer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/renderer.cpp b/src/renderer.cpp
index 272edd8..afda805 100644
--- a/src/renderer.cpp
+++ b/src/renderer.cpp
@@ -227,6 +227,7 @@ void executor(Camera* camera, ImageFilm* film, std::mutex* lock, int spp,
             for(int i = 0; i<spp; i++)
             {
                 camera->create_ray(&(samples[i]), &r, &rx, &ry);
+                h.differentials = false; //do not reuse those of another pixel
                 if(scene->k.intersect(&r, &h))
                 {
                     calculate_differentials(&h, &rx, &ry);
-- 
2.43.0


From e0a2f50c8f516eb16370613d65c4576cbc80c23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:29 +0000
Subject: [PATCH 66/71] fix: boxes showed textures and masks at undefined
 coordinates

---
 src/primitives/box.cpp | 63 +++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 28 deletions(-)

diff --git a/src/primitives/box.cpp b/src/primitives/box.cpp
index 96c86c7..4e70661 100644
--- a/src/primitives/box.cpp
+++ b/src/primitives/box.cpp
@@ -58,7 +58,6 @@ float Box::surface(const Matrix4* transform) const
 bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
                     const MaskBoolean* mask) const
 {
-    bool inside = false;
     float mint;
     float maxt;
     char axis = 0; //used for normal identification
@@ -110,36 +109,44 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
     }
     if(mint>maxt)
         return false;
-    float tmpdistance;
-    if(mint>SELF_INTERSECT_ERROR)
-        tmpdistance = mint;
-    else if(maxt>SELF_INTERSECT_ERROR)
+    //the second hit is used if the first is behind the origin or masked
+    const float hits[2] = {mint, maxt};
+    const char axes[2] = {axis, exit_axis};
+    for(int i = 0; i<2; i++)
     {
-        inside = true;
-        tmpdistance = maxt;
-        axis = exit_axis;
-    }
-    else
-        return false;
-    if(tmpdistance>*distance || mask->is_masked(h))
-        return false;
-    else
-    {
-        *distance = tmpdistance;
-        h->point_h = r->apply(*distance);
-        h->normal_h = Normal();
-        h->normal_h[axis] = (float)(-sign(r->direction[axis]));
-        if(inside)
-            h->normal_h[axis] *= -1;
-        if(h->normal_h.z != 0)
-            h->dpdu = Vec3(h->normal_h.z, 0, 0);
+        if(!(hits[i]>SELF_INTERSECT_ERROR))
+            continue;
+        if(hits[i]>*distance)
+            return false;
+        //tmp because h can not be overwritten until the mask is checked
+        HitPoint tmp = *h;
+        tmp.point_h = r->apply(hits[i]);
+        tmp.normal_h = Normal();
+        tmp.normal_h[axes[i]] = (float)(-sign(r->direction[axes[i]]));
+        if(i == 1) //leaving the box
+            tmp.normal_h[axes[i]] *= -1;
+        if(tmp.normal_h.z != 0)
+            tmp.dpdu = Vec3(tmp.normal_h.z, 0, 0);
         else
-            h->dpdu = Vec3(-h->normal_h.y, h->normal_h.x, 0);
-        h->dpdv = cross(Vec3(h->normal_h), h->dpdu);
-        h->index = 0;
-        return true;
-        //TODO: missing uv generation, and masking should be done after uvs
+            tmp.dpdu = Vec3(-tmp.normal_h.y, tmp.normal_h.x, 0);
+        tmp.dpdv = cross(Vec3(tmp.normal_h), tmp.dpdu);
+        //every face shows the whole texture
+        const Vec3 pos(tmp.point_h.x, tmp.point_h.y, tmp.point_h.z);
+        tmp.uv.x = dot(pos, tmp.dpdu);
+        if(tmp.dpdu.x+tmp.dpdu.y<0) //the first coordinate runs backwards
+            tmp.uv.x += 1.f;
+        tmp.uv.y = dot(pos, tmp.dpdv);
+        tmp.uv.x = clamp(tmp.uv.x, 0.f, 1.f);
+        tmp.uv.y = clamp(tmp.uv.y, 0.f, 1.f);
+        tmp.index = 0;
+        if(!mask->is_masked(&tmp))
+        {
+            *distance = hits[i];
+            *h = tmp;
+            return true;
+        }
     }
+    return false;
 }
 
 void Box::get_densities_array(const Matrix4* transform, float* array) const
-- 
2.43.0


From 32cdad068d37f6e905264f2846f2aa1eb9377f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:53 +0000
Subject: [PATCH 67/71] fix: footprints of rays along the surface were not a
 number

---
 src/primitives/hit_point.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/primitives/hit_point.cpp b/src/primitives/hit_point.cpp
index 3c8218a..204eb15 100644
--- a/src/primitives/hit_point.cpp
+++ b/src/primitives/hit_point.cpp
@@ -2,6 +2,7 @@
 //license: GNU GPLv3
 
 #include "hit_point.hpp"
+#include <cmath>
 
 void calculate_differentials(HitPoint* hit, Ray* rx, Ray* ry)
 {
@@ -62,7 +63,11 @@ void calculate_differentials(HitPoint* hit, Ray* rx, Ray* ry)
         hit->dv.x = (a00*bx1-a10*bx0)*invdet;
         hit->du.y = (a11*by0-a01*by1)*invdet;
         hit->dv.y = (a00*by1-a10*by0)*invdet;
-        hit->differentials = true;
+        //a neighbour ray along the surface never meets it
+        hit->differentials = std::isfinite(hit->du.x) &&
+                             std::isfinite(hit->du.y) &&
+                             std::isfinite(hit->dv.x) &&
+                             std::isfinite(hit->dv.y);
     }
     else
         hit->differentials = false;
-- 
2.43.0


From f6f4069a490275cd2b5644f6e7e4c213b1f3cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:31 +0000
Subject: [PATCH 68/71] fix: normal maps made materials leak light from the
 other side

Directions sampled in a tilted shading space may end below the surface.
The value method and the materials of several lobes already return no
light for them, the materials of a single lobe did not.
---
 src/materials/single_brdf.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/materials/single_brdf.cpp b/src/materials/single_brdf.cpp
index 60b20cd..28669f3 100644
--- a/src/materials/single_brdf.cpp
+++ b/src/materials/single_brdf.cpp
@@ -71,6 +71,14 @@ Spectrum SingleBRDF::sample_value(float, float r1, float r2, const Vec3* woW,
     retval = bdf->sample_value(&wo_shading, &wi_shading, r1, r2, pdf);
     wi_shading.normalize();
     *wiW = matrix->to_world(wi_shading);
+    //the shading space may be tilted: a direction ending on the other side of
+    //the surface is not a reflection, just like in the value method
+    if(!bdf->is_specular() &&
+       wiW->dot(h->normal_h)*woW->dot(h->normal_h)<=0)
+    {
+        *pdf = 0.f;
+        return SPECTRUM_BLACK;
+    }
     return retval*diffuse->map(h);
 }
 
-- 
2.43.0


From ced3049f5b5ad981767c6774f5d5a8665d7b75b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:42 +0000
Subject: [PATCH 69/71] fix: height maps used the footprint of an earlier point
 when they had none

---
 src/textures/texture_height.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/textures/texture_height.cpp b/src/textures/texture_height.cpp
index a5e0e36..53af841 100644
--- a/src/textures/texture_height.cpp
+++ b/src/textures/texture_height.cpp
@@ -27,7 +27,9 @@ void TextureHeight::gradient(const HitPoint* hp, float* u, float* v) const
     original = *(&(tex.b)+channel);
 #endif
 
-    float epsilon_u = 0.5f*(fabsf(hp->du.x)+fabsf(hp->du.y));
+    float epsilon_u = 0.f;
+    if(hp->differentials) //otherwise du is not the one of this point
+        epsilon_u = 0.5f*(fabsf(hp->du.x)+fabsf(hp->du.y));
     if(epsilon_u == 0)
         epsilon_u = 0.01f;
     shifted.point_h = hp->point_h+hp->dpdu*epsilon_u;
@@ -41,7 +43,9 @@ void TextureHeight::gradient(const HitPoint* hp, float* u, float* v) const
     shifted_u = *(&(tex.b)+channel);
 #endif
 
-    float epsilon_v = 0.5f*(fabsf(hp->dv.x)+fabsf(hp->dv.y));
+    float epsilon_v = 0.f;
+    if(hp->differentials)
+        epsilon_v = 0.5f*(fabsf(hp->dv.x)+fabsf(hp->dv.y));
     if(epsilon_v == 0.f)
         epsilon_v = 0.01f;
     shifted.point_h = hp->point_h+hp->dpdv*epsilon_v;
-- 
2.43.0


From ded6f021dacaeb8fa8954ed20bbedf8f759ed748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:59 +0000
Subject: [PATCH 70/71] fix: parameter space points of OBJ files were taken for
 vertices

---
 src/parsers/parser_obj.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index 37e9617..7bfb89a 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -136,7 +136,7 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                         normals.emplace_back(x, y, z);
                         break;
                     }
-                    default: //vertices
+                    case '\0': //vertices
                     {
                         float x, y, z;
                         get_next_token(&buffer, token, TOKEN_SIZE,
@@ -149,7 +149,10 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                                        &read_bytes, buffer_ro, fin);
                         z = strtof(token, NULL);
                         vertices.emplace_back(x, y, z);
+                        break;
                     }
+                    default: //vp, points of curves that are not supported
+                        ;
                 }
                 break;
             }
-- 
2.43.0


From 705954ffba7e771a5a0858f3a44ef06d6ef49169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:07 +0000
Subject: [PATCH 71/71] fix: OBJ files were left open after parsing

---
 src/parsers/parser_obj.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index 7bfb89a..73a1881 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -25,11 +25,7 @@ ParserObj::ParserObj()
 
 ParserObj::~ParserObj()
 {
-    if(buffer_ro != NULL)
-    {
-        free(buffer_ro);
-        buffer_ro = NULL;
-    }
+    end_parsing();
 }
 
 void ParserObj::start_parsing(const char* path)
@@ -37,6 +33,7 @@ void ParserObj::start_parsing(const char* path)
     ParserObj::path = path;
     lineno = 1;
     face_no = 0; //used to know when nothing was parsed
+    end_parsing(); //a previous file could still be open
     fin = fopen(path, "r");
     groups_as_names = false;
     craft_token = '\0';
-- 
2.43.0

