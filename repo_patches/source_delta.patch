From 491b6b77fafd6ca8a931922c90d60c00ced3fa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:56 +0000
Subject: [PATCH 01/60] fix: keep the asset group unchanged when constructing
 an asset fails

---
 src/assetgroup.cpp | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/assetgroup.cpp b/src/assetgroup.cpp
index 7f33502..ebf94a4 100644
--- a/src/assetgroup.cpp
+++ b/src/assetgroup.cpp
@@ -41,6 +41,22 @@ private:
         return std::regex_match(name, match, regex);
     }
 
+    // Unregister the asset of the given name and destroy the instance.
+    void unregister_asset(const std::string& name) {
+        const auto it = asset_index_map_.find(name);
+        if (it == asset_index_map_.end()) {
+            return;
+        }
+        const int index = it->second;
+        asset_index_map_.erase(it);
+        for (auto& v : asset_index_map_) {
+            if (v.second > index) {
+                v.second--;
+            }
+        }
+        assets_.erase(assets_.begin() + index);
+    }
+
 public:
     virtual Component* load_asset(const std::string& name, const std::string& impl_key, const Json& prop) override {
         LM_INFO("Loading asset [name='{}']", name);
@@ -74,15 +90,22 @@ public:
             // Move existing instance
             // This must not be released until the end of this scope
             // because weak references needs to find locator in the existing instance.
-            auto old = std::move(assets_[it->second]);
+            const int index = it->second;
+            auto old = std::move(assets_[index]);
 
             // Replace the existing instance
-            assets_[it->second] = std::move(p);
-            asset = assets_[it->second].get();
+            assets_[index] = std::move(p);
+            asset = assets_[index].get();
 
             // Initialize the asset
-            // This might cause an exception
-            asset->construct(prop);
+            // This might cause an exception. If it happens, restore the existing instance.
+            try {
+                asset->construct(prop);
+            }
+            catch (...) {
+                assets_[index] = std::move(old);
+                throw;
+            }
 
             // Notify to update the weak references in the object tree
             const Component::ComponentVisitor visitor = [&](Component*& comp, bool weak) {
@@ -109,7 +132,14 @@ public:
             asset = assets_.back().get();
 
             // Initialize the asset
-            asset->construct(prop);
+            // This might cause an exception. If it happens, unregister the asset.
+            try {
+                asset->construct(prop);
+            }
+            catch (...) {
+                unregister_asset(name);
+                throw;
+            }
         }
 
         return asset;
-- 
2.43.0


From e821179b4b4a6fb1a135b7d3d59416c7ad28c4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:56 +0000
Subject: [PATCH 02/60] fix: keep the asset group unchanged when loading a
 serialized asset fails

---
 include/lm/serial.h |  3 ++-
 src/assetgroup.cpp  | 17 +++++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/lm/serial.h b/include/lm/serial.h
index 3fbf2ca..e8cab40 100644
--- a/include/lm/serial.h
+++ b/include/lm/serial.h
@@ -205,7 +205,8 @@ void load(Archive& ar, lm::Component::Ptr<T>& p) {
         // Be careful not to call construct() function here
         p = lm::comp::create_without_construct<T>(key, loc);
         if (!p) {
-            return;
+            LM_THROW_EXCEPTION(lm::Error::IOError,
+                "Failed to create a serialized component [key='{}', loc='{}']", key, loc);
         }
 
         // Load the contents
diff --git a/src/assetgroup.cpp b/src/assetgroup.cpp
index ebf94a4..218d245 100644
--- a/src/assetgroup.cpp
+++ b/src/assetgroup.cpp
@@ -149,6 +149,12 @@ public:
         LM_INFO("Loading serialized asset [name='{}']", name);
         LM_INDENT();
 
+        // Check if asset name is valid
+        if (!valid_asset_name(name)) {
+            LM_ERROR("Invalid asset name [name='{}']", name);
+            return nullptr;
+        }
+
         if (asset_index_map_.find(name) != asset_index_map_.end()) {
             LM_THROW_EXCEPTION(Error::InvalidArgument,
                 "Asset [name='{}'] has been already loaded.", name);
@@ -161,8 +167,15 @@ public:
         assets_.emplace_back();
      
         // Deserialize the asset
-        std::ifstream is(path, std::ios::in | std::ios::binary);
-        serial::load_comp(is, assets_.back(), make_loc(name));
+        // This might cause an exception. If it happens, unregister the asset.
+        try {
+            std::ifstream is(path, std::ios::in | std::ios::binary);
+            serial::load_comp(is, assets_.back(), make_loc(name));
+        }
+        catch (...) {
+            unregister_asset(name);
+            throw;
+        }
 
         return assets_.back().get();
     }
-- 
2.43.0


From cf7ff62991f1e04113e096ad9a754d8181693d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:56 +0000
Subject: [PATCH 03/60] fix: keep the current state when loading a state file
 fails

---
 src/user.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/user.cpp b/src/user.cpp
index 9c46794..dfa83f6 100644
--- a/src/user.cpp
+++ b/src/user.cpp
@@ -108,7 +108,20 @@ public:
 
     void load_state_from_file(const std::string& path) {
         std::ifstream is(path, std::ios::in | std::ios::binary);
-        serial::load_comp(is, root_assets_, root_assets_->loc());
+        const auto loc = root_assets_->loc();
+
+        // Loading might cause an exception. If it happens, restore the current state.
+        auto old = std::move(root_assets_);
+        try {
+            serial::load_comp(is, root_assets_, loc);
+            if (!root_assets_) {
+                LM_THROW_EXCEPTION(Error::IOError, "Invalid state file [path='{}']", path);
+            }
+        }
+        catch (...) {
+            root_assets_ = std::move(old);
+            throw;
+        }
     }
 };
 
-- 
2.43.0


From 2f1d0e8e763f4b7f5c28c37a9358565e98e31ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:56 +0000
Subject: [PATCH 04/60] fix: reject outer references to assets whose locator
 extends the root of the subtree

---
 include/lm/serial.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/lm/serial.h b/include/lm/serial.h
index e8cab40..b06b3dc 100644
--- a/include/lm/serial.h
+++ b/include/lm/serial.h
@@ -98,6 +98,16 @@ void load(Archive& ar, std::atomic<T>& v) {
 
 // ------------------------------------------------------------------------------------------------
 
+/*
+    Check if the component specified by the locator is in the subtree specified by the root locator.
+*/
+inline bool in_subtree(const std::string& loc, const std::string& root_loc) {
+    if (loc.compare(0, root_loc.size(), root_loc) != 0) {
+        return false;
+    }
+    return root_loc.empty() || loc.size() == root_loc.size() || loc[root_loc.size()] == '.';
+}
+
 /*
     Save owned pointer.
 */
@@ -136,7 +146,7 @@ void save_owned(Archive& ar, T* p) {
 
             // Consistency testing
             // Current locator must start with root_loc
-            if (loc.rfind(root_loc, 0) != 0) {
+            if (!in_subtree(loc, root_loc)) {
                 LM_THROW_EXCEPTION(lm::Error::IOError,
                     "Unserializable asset. Subtree contains a reference to the outer asset. [loc='{}']", loc);
             }
@@ -253,7 +263,7 @@ serialize(lm::OutputArchive& ar, T*& p) {
 
             // Consistency testing
             // Current locator must start with root_loc
-            if (loc.rfind(root_loc, 0) != 0) {
+            if (!in_subtree(loc, root_loc)) {
                 LM_THROW_EXCEPTION(lm::Error::IOError,
                     "Unserializable asset. Subtree contains a reference to the outer asset. [loc='{}']", loc);
             }
@@ -372,7 +382,7 @@ save_comp_owned(std::ostream& stream, T* comp, const std::string& root_loc) {
             // Check if the weak reference is referring to an asset in the subtree
             // by checking if the locator starts with root_loc.
             const auto loc = visiting_comp->loc();
-            if (loc.rfind(root_loc, 0) != 0) {
+            if (!cereal::in_subtree(loc, root_loc)) {
                 LM_THROW_EXCEPTION(Error::Unsupported,
                     "Unserializable asset. Subtree contains a reference to the outer asset. [loc='{}']", loc);
             }
-- 
2.43.0


From b92fcb104e12d03bc227aefa8ce8708f05fd56b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:24 +0000
Subject: [PATCH 05/60] fix: release the instance when a created component has
 another interface

---
 include/lm/component.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/lm/component.h b/include/lm/component.h
index 314e509..29815cc 100644
--- a/include/lm/component.h
+++ b/include/lm/component.h
@@ -569,7 +569,13 @@ Component::Ptr<InterfaceT> create_without_construct(const std::string& key, cons
         return {};
     }
     detail::Access::loc(inst) = loc;
-    return Component::Ptr<InterfaceT>(dynamic_cast<InterfaceT*>(inst));
+    auto* p = dynamic_cast<InterfaceT*>(inst);
+    if (!p) {
+        // The implementation does not have the requested interface. Release the instance.
+        Component::Ptr<Component> unused(inst);
+        return {};
+    }
+    return Component::Ptr<InterfaceT>(p);
 }
 
 /*!
-- 
2.43.0


From 97f5e5a1c6e4c505c9ee33b121df81418cf67bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:24 +0000
Subject: [PATCH 06/60] fix: load plugins from the given directory

---
 src/component.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/component.cpp b/src/component.cpp
index 999aa57..8981d81 100644
--- a/src/component.cpp
+++ b/src/component.cpp
@@ -295,7 +295,7 @@ public:
             if (!std::regex_match(filename.c_str(), match, pluginNameExp)) {
                 continue;
             }
-            load_plugin(it->path().stem().string().c_str());
+            load_plugin((it->path().parent_path() / it->path().stem()).string());
         }
     }
 
-- 
2.43.0


From 41e9e1f72344b2358356b46f71b3fffb905989f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:59 +0000
Subject: [PATCH 07/60] fix: follow and serialize the medium of a scene

---
 src/scene.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scene.cpp b/src/scene.cpp
index a10acf8..f3d8556 100644
--- a/src/scene.cpp
+++ b/src/scene.cpp
@@ -29,7 +29,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(accel_, nodes_, camera_, lights_, light_indices_map_, env_light_);
+        ar(accel_, nodes_, camera_, lights_, light_indices_map_, env_light_, medium_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
@@ -40,6 +40,7 @@ public:
                 comp::visit(visit, node.primitive.material);
                 comp::visit(visit, node.primitive.light);
                 comp::visit(visit, node.primitive.camera);
+                comp::visit(visit, node.primitive.medium);
             }
         }
     }
-- 
2.43.0


From 486d809d7deec8ab6865e46f2913a16d7f747136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:59 +0000
Subject: [PATCH 08/60] fix: follow the replacement of volumes and phase
 functions in media

---
 src/medium/medium_heterogeneous.cpp | 12 +++++++++---
 src/medium/medium_homogeneous.cpp   |  6 +++++-
 src/volume/volume_multi.cpp         |  9 +++++++++
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/medium/medium_heterogeneous.cpp b/src/medium/medium_heterogeneous.cpp
index 4731d4d..10757d1 100644
--- a/src/medium/medium_heterogeneous.cpp
+++ b/src/medium/medium_heterogeneous.cpp
@@ -25,15 +25,21 @@ LM_NAMESPACE_BEGIN(LM_NAMESPACE)
 */
 class Medium_Heterogeneous final : public Medium {
 private:
-    const Volume* volume_density_;  // Density volume. density := \mu_t = \mu_a + \mu_s
-    const Volume* volme_albedo_;	// Albedo volume. albedo := \mu_s / \mu_t
-    const Phase* phase_;            // Underlying phase function.
+    Volume* volume_density_;        // Density volume. density := \mu_t = \mu_a + \mu_s
+    Volume* volme_albedo_;      	// Albedo volume. albedo := \mu_s / \mu_t
+    Phase* phase_;                  // Underlying phase function.
 
 public:
     LM_SERIALIZE_IMPL(ar) {
         ar(volume_density_, volme_albedo_, phase_);
     }
 
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, volume_density_);
+        comp::visit(visit, volme_albedo_);
+        comp::visit(visit, phase_);
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         volume_density_ = json::comp_ref<Volume>(prop, "volume_density");
diff --git a/src/medium/medium_homogeneous.cpp b/src/medium/medium_homogeneous.cpp
index 62839cb..635f198 100644
--- a/src/medium/medium_homogeneous.cpp
+++ b/src/medium/medium_homogeneous.cpp
@@ -29,7 +29,7 @@ private:
     Vec3 albedo_;           // Albedo of volume := \mu_s / \mu_t
     Vec3 muA_;              // Absorption coefficient.
     Vec3 muS_;              // Scattering coefficient.
-    const Phase* phase_;    // Underlying phase function.
+    Phase* phase_;          // Underlying phase function.
     Bound bound_;
 
 public:
@@ -37,6 +37,10 @@ public:
         ar(density_, muA_, muS_, phase_, bound_);
     }
 
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, phase_);
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         density_ = json::value<Float>(prop, "density");
diff --git a/src/volume/volume_multi.cpp b/src/volume/volume_multi.cpp
index 03bafce..93fd841 100644
--- a/src/volume/volume_multi.cpp
+++ b/src/volume/volume_multi.cpp
@@ -32,6 +32,15 @@ public:
         ar(bound_, max_scalar_, size_, volumes_den_, volumes_alb_);
     }
 
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        for (auto& v : volumes_den_) {
+            comp::visit(visit, v);
+        }
+        for (auto& v : volumes_alb_) {
+            comp::visit(visit, v);
+        }
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         // Currently no straightforward way to use json::comp_ref<Volume>() on an array
-- 
2.43.0


From baacf0f9b8a881867e799f6c98b946ab228f8067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:59 +0000
Subject: [PATCH 09/60] fix: serialize the whole state of media, textures,
 volumes, lights and renderers

---
 src/light/light_env.cpp           | 2 +-
 src/medium/medium_homogeneous.cpp | 2 +-
 src/renderer/renderer_pt.cpp      | 2 +-
 src/renderer/renderer_raycast.cpp | 2 +-
 src/renderer/renderer_volpt.cpp   | 2 +-
 src/texture/texture_constant.cpp  | 2 +-
 src/volume/volume_constant.cpp    | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/light/light_env.cpp b/src/light/light_env.cpp
index bdcefd2..0803f91 100644
--- a/src/light/light_env.cpp
+++ b/src/light/light_env.cpp
@@ -33,7 +33,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(sphere_bound_, envmap_, rot_, dist_);
+        ar(sphere_bound_, envmap_, rot_, scale_, dist_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visitor) override {
diff --git a/src/medium/medium_homogeneous.cpp b/src/medium/medium_homogeneous.cpp
index 635f198..55f9678 100644
--- a/src/medium/medium_homogeneous.cpp
+++ b/src/medium/medium_homogeneous.cpp
@@ -34,7 +34,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(density_, muA_, muS_, phase_, bound_);
+        ar(density_, albedo_, muA_, muS_, phase_, bound_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
diff --git a/src/renderer/renderer_pt.cpp b/src/renderer/renderer_pt.cpp
index 4427681..808195e 100644
--- a/src/renderer/renderer_pt.cpp
+++ b/src/renderer/renderer_pt.cpp
@@ -38,7 +38,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(scene_, film_, max_verts_, sampling_mode_, sched_);
+        ar(scene_, film_, max_verts_, seed_, sampling_mode_, primary_ray_sampling_mode_, sched_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
diff --git a/src/renderer/renderer_raycast.cpp b/src/renderer/renderer_raycast.cpp
index ed2fbd9..5667438 100644
--- a/src/renderer/renderer_raycast.cpp
+++ b/src/renderer/renderer_raycast.cpp
@@ -28,7 +28,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(scene_, film_, bg_color_, use_constant_color_, visualize_normal_, sched_);
+        ar(scene_, film_, bg_color_, use_constant_color_, visualize_normal_, color_, sched_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
diff --git a/src/renderer/renderer_volpt.cpp b/src/renderer/renderer_volpt.cpp
index 4fc1743..8d2a7f0 100644
--- a/src/renderer/renderer_volpt.cpp
+++ b/src/renderer/renderer_volpt.cpp
@@ -27,7 +27,7 @@ protected:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(scene_, film_, max_verts_, rr_prob_, sched_);
+        ar(scene_, film_, max_verts_, rr_prob_, seed_, sched_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
diff --git a/src/texture/texture_constant.cpp b/src/texture/texture_constant.cpp
index 48c0414..e58fa41 100644
--- a/src/texture/texture_constant.cpp
+++ b/src/texture/texture_constant.cpp
@@ -26,7 +26,7 @@ private:
 
 public:
 	LM_SERIALIZE_IMPL(ar) {
-		ar(color_);
+		ar(color_, alpha_);
 	}
 
 public:
diff --git a/src/volume/volume_constant.cpp b/src/volume/volume_constant.cpp
index 1186288..22b60ef 100644
--- a/src/volume/volume_constant.cpp
+++ b/src/volume/volume_constant.cpp
@@ -29,7 +29,7 @@ private:
 
 public:
 	LM_SERIALIZE_IMPL(ar) {
-		ar(bound_);
+		ar(bound_, color_, scalar_);
 	}
 
 public:
-- 
2.43.0


From 133c320c598cc2eeb16692b9682d36b93f4c58d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:59 +0000
Subject: [PATCH 10/60] fix: make the schedulers of renderers accessible and
 serialize bidirectional renderers

---
 src/renderer/renderer_bdpt.cpp    | 18 ++++++++++++++++++
 src/renderer/renderer_bdptopt.cpp | 20 ++++++++++++++++++--
 src/renderer/renderer_lt.cpp      |  7 +++++++
 src/renderer/renderer_pt.cpp      |  7 +++++++
 src/renderer/renderer_volpt.cpp   |  7 +++++++
 5 files changed, 57 insertions(+), 2 deletions(-)

diff --git a/src/renderer/renderer_bdpt.cpp b/src/renderer/renderer_bdpt.cpp
index d3aedfa..872a0cd 100644
--- a/src/renderer/renderer_bdpt.cpp
+++ b/src/renderer/renderer_bdpt.cpp
@@ -44,6 +44,24 @@ public:
     std::optional<unsigned int> seed_;              // Random seed
     Component::Ptr<scheduler::Scheduler> sched_;    // Scheduler for parallel processing
 
+public:
+    LM_SERIALIZE_IMPL(ar) {
+        ar(scene_, film_, min_verts_, max_verts_, seed_, sched_);
+    }
+
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, scene_);
+        comp::visit(visit, film_);
+        comp::visit(visit, sched_);
+    }
+
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
diff --git a/src/renderer/renderer_bdptopt.cpp b/src/renderer/renderer_bdptopt.cpp
index c4d2435..e5e5cad 100644
--- a/src/renderer/renderer_bdptopt.cpp
+++ b/src/renderer/renderer_bdptopt.cpp
@@ -433,6 +433,17 @@ private:
     std::unordered_map<std::string, Film*> strategy_film_name_map_;
     #endif
 
+public:
+    LM_SERIALIZE_IMPL(ar) {
+        ar(scene_, film_, min_verts_, max_verts_, seed_, sched_);
+    }
+
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, scene_);
+        comp::visit(visit, film_);
+        comp::visit(visit, sched_);
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
@@ -461,11 +472,16 @@ public:
         #endif
     }
 
-    #if BDPT_PER_STRATEGY_FILM
     virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        #if BDPT_PER_STRATEGY_FILM
         return strategy_film_name_map_.at(name);
+        #else
+        return nullptr;
+        #endif
     }
-    #endif
 
     virtual Json render() const override {
         scene_->require_renderable();
diff --git a/src/renderer/renderer_lt.cpp b/src/renderer/renderer_lt.cpp
index d22038e..ea2e9ed 100644
--- a/src/renderer/renderer_lt.cpp
+++ b/src/renderer/renderer_lt.cpp
@@ -34,6 +34,13 @@ public:
         comp::visit(visit, sched_);
     }
 
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
diff --git a/src/renderer/renderer_pt.cpp b/src/renderer/renderer_pt.cpp
index 808195e..f9dd68a 100644
--- a/src/renderer/renderer_pt.cpp
+++ b/src/renderer/renderer_pt.cpp
@@ -47,6 +47,13 @@ public:
         comp::visit(visit, sched_);
     }
 
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
diff --git a/src/renderer/renderer_volpt.cpp b/src/renderer/renderer_volpt.cpp
index 8d2a7f0..e60f1c3 100644
--- a/src/renderer/renderer_volpt.cpp
+++ b/src/renderer/renderer_volpt.cpp
@@ -36,6 +36,13 @@ public:
         comp::visit(visit, sched_);
     }
 
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
-- 
2.43.0


From 8b224e253b70fa53f0023b6e7bc6363870de6650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:59 +0000
Subject: [PATCH 11/60] fix: return nullptr for unknown underlying components
 of a model

---
 src/model/model_wavefrontobj.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model/model_wavefrontobj.cpp b/src/model/model_wavefrontobj.cpp
index 343c9a8..66ee166 100644
--- a/src/model/model_wavefrontobj.cpp
+++ b/src/model/model_wavefrontobj.cpp
@@ -68,7 +68,8 @@ public:
 
 public:
     virtual Component* underlying(const std::string& name) const override {
-        return assets_[assets_map_.at(name)].get();
+        const auto it = assets_map_.find(name);
+        return it != assets_map_.end() ? assets_.at(it->second).get() : nullptr;
     }
 
 	virtual void construct(const Json& prop) override {
-- 
2.43.0


From 31f4fc7b40cd8ecc2704b1a952db1c670087476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:00 +0000
Subject: [PATCH 12/60] fix: build the acceleration structure of a scene
 without triangles

---
 src/accel/accel_sahbvh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/accel/accel_sahbvh.cpp b/src/accel/accel_sahbvh.cpp
index 33ab6b0..786abe3 100644
--- a/src/accel/accel_sahbvh.cpp
+++ b/src/accel/accel_sahbvh.cpp
@@ -160,7 +160,7 @@ public:
         };
         std::queue<Entry> q;            // Queue for traversal (node index, start, end)
         q.push({0, 0, nt});             // Initialize the queue with root node
-        nodes_.assign(2*nt-1, {});      // Maximum number of nodes: 2*nt-1
+        nodes_.assign(std::max(2*nt-1, 1), {}); // Maximum number of nodes: 2*nt-1
         indices_.assign(nt, 0);
         std::iota(indices_.begin(), indices_.end(), 0);
         std::mutex mu;                  // For concurrent queue
-- 
2.43.0


From e79e4973b3137404d30cee328f9c209f4071f297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:48 +0000
Subject: [PATCH 13/60] fix: count processed samples per parallel loop

---
 src/parallel/parallel_openmp.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parallel/parallel_openmp.cpp b/src/parallel/parallel_openmp.cpp
index a670d2c..7b213bb 100644
--- a/src/parallel/parallel_openmp.cpp
+++ b/src/parallel/parallel_openmp.cpp
@@ -45,7 +45,8 @@ public:
 
         // Execute parallel loop
         std::atomic<long long> processed = 0;
-        #pragma omp parallel for schedule(dynamic, 1)
+        long long count = 0;    // Number of samples not added to processed yet (per thread)
+        #pragma omp parallel for schedule(dynamic, 1) firstprivate(count)
         for (long long i = 0; i < numSamples; i++) {
             // Spin the loop if cancellation is requested
             if (done) {
@@ -74,7 +75,7 @@ public:
                 processFunc(i, thread_id);
 
                 // Update processed number of samples
-                if (thread_local long long count = 0; ++count >= progress_update_interval_) {
+                if (++count >= progress_update_interval_) {
                     processed += count;
                     count = 0;
                 }
-- 
2.43.0


From 65d914822af78ed3b635205a9aa62eb090a314cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:48 +0000
Subject: [PATCH 14/60] fix: use the configured number of threads whichever
 thread runs the loop

---
 src/parallel/parallel_openmp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parallel/parallel_openmp.cpp b/src/parallel/parallel_openmp.cpp
index 7b213bb..4dadf89 100644
--- a/src/parallel/parallel_openmp.cpp
+++ b/src/parallel/parallel_openmp.cpp
@@ -24,7 +24,7 @@ public:
         progress_update_interval_ = json::value<long long>(prop, "progress_update_interval", 100);
         num_threads_ = json::value(prop, "num_threads", std::thread::hardware_concurrency());
         if (num_threads_ <= 0) {
-            num_threads_ = std::thread::hardware_concurrency() + num_threads_;
+            num_threads_ = std::max(1, int(std::thread::hardware_concurrency()) + num_threads_);
         }
         omp_set_num_threads(num_threads_);
     }
@@ -46,7 +46,7 @@ public:
         // Execute parallel loop
         std::atomic<long long> processed = 0;
         long long count = 0;    // Number of samples not added to processed yet (per thread)
-        #pragma omp parallel for schedule(dynamic, 1) firstprivate(count)
+        #pragma omp parallel for schedule(dynamic, 1) firstprivate(count) num_threads(num_threads_)
         for (long long i = 0; i < numSamples; i++) {
             // Spin the loop if cancellation is requested
             if (done) {
-- 
2.43.0


From 40f70c7392ca003f8e717eaa9f048b5e1e8d509a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:44 +0000
Subject: [PATCH 15/60] fix: seed the random number generators of a renderer
 for every rendering

---
 include/lm/renderer.h             | 17 +++++++++++++++++
 src/renderer/renderer_bdpt.cpp    | 24 ++++++++++++++++--------
 src/renderer/renderer_bdptopt.cpp |  6 ++++--
 src/renderer/renderer_lt.cpp      |  6 ++++--
 src/renderer/renderer_pt.cpp      |  6 ++++--
 src/renderer/renderer_volpt.cpp   | 12 ++++++++----
 6 files changed, 53 insertions(+), 18 deletions(-)

diff --git a/include/lm/renderer.h b/include/lm/renderer.h
index be810a6..d22df2a 100644
--- a/include/lm/renderer.h
+++ b/include/lm/renderer.h
@@ -6,6 +6,10 @@
 #pragma once
 
 #include "component.h"
+#include "math.h"
+#include "parallel.h"
+#include <optional>
+#include <vector>
 
 LM_NAMESPACE_BEGIN(LM_NAMESPACE)
 
@@ -23,6 +27,19 @@ public:
         \brief Process rendering.
     */
     virtual Json render() const = 0;
+
+protected:
+    /*!
+        \brief Create random number generators for the threads of a parallel loop.
+        \param seed Random seed. Uses a random seed if not specified.
+    */
+    static std::vector<Rng> make_rngs(std::optional<unsigned int> seed) {
+        std::vector<Rng> rngs;
+        for (int i = 0; i < parallel::num_threads(); i++) {
+            rngs.emplace_back(seed ? *seed + i : math::rng_seed());
+        }
+        return rngs;
+    }
 };
 
 /*!
diff --git a/src/renderer/renderer_bdpt.cpp b/src/renderer/renderer_bdpt.cpp
index 872a0cd..26b050b 100644
--- a/src/renderer/renderer_bdpt.cpp
+++ b/src/renderer/renderer_bdpt.cpp
@@ -86,12 +86,14 @@ public:
         const auto size = film_->size();
         timer::ScopedTimer st;
 
+        // Per-thread random number generators
+        auto rngs = make_rngs(seed_);
+
         // Execute parallel process
         const auto processed = sched_->run([&](long long, long long sample_index, int threadid) {
             LM_KEEP_UNUSED(sample_index);
 
-            // Per-thread random number generator
-            thread_local Rng rng(seed_ ? *seed_ + threadid : math::rng_seed());
+            auto& rng = rngs[threadid];
 
             // Sample eye subpath
             const auto subpathE = path::sample_subpath(rng, scene_, max_verts_, TransDir::EL);
@@ -152,10 +154,12 @@ public:
         const auto size = film_->size();
         timer::ScopedTimer st;
 
+        // Per-thread random number generators
+        auto rngs = make_rngs(seed_);
+
         // Execute parallel process
         const auto processed = sched_->run([&](long long, long long, int threadid) {
-            // Per-thread random number generator
-            thread_local Rng rng(seed_ ? *seed_ + threadid : math::rng_seed());
+            auto& rng = rngs[threadid];
 
             // Sample subpaths
             const auto subpathE = path::sample_subpath(rng, scene_, max_verts_, TransDir::EL);
@@ -228,12 +232,14 @@ public:
         const auto size = film_->size();
         timer::ScopedTimer st;
 
+        // Per-thread random number generators
+        auto rngs = make_rngs(seed_);
+
         // Execute parallel process
         const auto processed = sched_->run([&](long long, long long sample_index, int threadid) {
             LM_KEEP_UNUSED(sample_index);
 
-            // Per-thread random number generator
-            thread_local Rng rng(seed_ ? *seed_ + threadid : math::rng_seed());
+            auto& rng = rngs[threadid];
 
             // Sample subpaths
             const auto subpathE = path::sample_subpath(rng, scene_, 1, TransDir::EL);
@@ -351,12 +357,14 @@ public:
         const auto size = film_->size();
         timer::ScopedTimer st;
 
+        // Per-thread random number generators
+        auto rngs = make_rngs(seed_);
+
         // Execute parallel process
         const auto processed = sched_->run([&](long long, long long sample_index, int threadid) {
             LM_KEEP_UNUSED(sample_index);
 
-            // Per-thread random number generator
-            thread_local Rng rng(seed_ ? *seed_ + threadid : math::rng_seed());
+            auto& rng = rngs[threadid];
 
             // Sample subpaths
             const auto subpathE = path::sample_subpath(rng, scene_, max_verts_, TransDir::EL);
diff --git a/src/renderer/renderer_bdptopt.cpp b/src/renderer/renderer_bdptopt.cpp
index e5e5cad..b641803 100644
--- a/src/renderer/renderer_bdptopt.cpp
+++ b/src/renderer/renderer_bdptopt.cpp
@@ -490,12 +490,14 @@ public:
         timer::ScopedTimer st;
 
 
+        // Per-thread random number generators
+        auto rngs = make_rngs(seed_);
+
         // Execute parallel process
         const auto processed = sched_->run([&](long long, long long sample_index, int threadid) {
             LM_KEEP_UNUSED(sample_index);
 
-            // Per-thread random number generator
-            thread_local Rng rng(seed_ ? *seed_ + threadid : math::rng_seed());
+            auto& rng = rngs[threadid];
 
             // Sample subpaths
             thread_local Path subpathE;
diff --git a/src/renderer/renderer_lt.cpp b/src/renderer/renderer_lt.cpp
index ea2e9ed..3c56662 100644
--- a/src/renderer/renderer_lt.cpp
+++ b/src/renderer/renderer_lt.cpp
@@ -60,10 +60,12 @@ public:
         const auto size = film_->size();
         timer::ScopedTimer st;
 
+        // Per-thread random number generators
+        auto rngs = make_rngs(seed_);
+
         // Execute parallel process
         const auto processed = sched_->run([&](long long, long long, int threadid) {
-            // Per-thread random number generator
-            thread_local Rng rng(seed_ ? *seed_ + threadid : math::rng_seed());
+            auto& rng = rngs[threadid];
 
             // ------------------------------------------------------------------------------------
 
diff --git a/src/renderer/renderer_pt.cpp b/src/renderer/renderer_pt.cpp
index f9dd68a..e8e4dff 100644
--- a/src/renderer/renderer_pt.cpp
+++ b/src/renderer/renderer_pt.cpp
@@ -92,10 +92,12 @@ public:
         const auto size = film_->size();
         timer::ScopedTimer st;
 
+        // Per-thread random number generators
+        auto rngs = make_rngs(seed_);
+
         // Execute parallel process
         const auto processed = sched_->run([&](long long pixel_index, long long, int threadid) {
-            // Per-thread random number generator
-            thread_local Rng rng(seed_ ? *seed_ + threadid : math::rng_seed());
+            auto& rng = rngs[threadid];
 
             // ------------------------------------------------------------------------------------
 
diff --git a/src/renderer/renderer_volpt.cpp b/src/renderer/renderer_volpt.cpp
index e60f1c3..68bccca 100644
--- a/src/renderer/renderer_volpt.cpp
+++ b/src/renderer/renderer_volpt.cpp
@@ -71,11 +71,13 @@ public:
         film_->clear();
         const auto size = film_->size();
         timer::ScopedTimer st;
+        // Per-thread random number generators
+        auto rngs = make_rngs(seed_);
+
         const auto processed = sched_->run([&](long long pixel_index, long long sample_index, int threadid) {
             LM_KEEP_UNUSED(sample_index);
 
-            // Per-thread random number generator
-            thread_local Rng rng(seed_ ? *seed_ + threadid : math::rng_seed());
+            auto& rng = rngs[threadid];
 
             // ------------------------------------------------------------------------------------
 
@@ -208,11 +210,13 @@ public:
         film_->clear();
         const auto size = film_->size();
         timer::ScopedTimer st;
+        // Per-thread random number generators
+        auto rngs = make_rngs(seed_);
+
         const auto processed = sched_->run([&](long long pixel_index, long long sample_index, int threadid) {
             LM_KEEP_UNUSED(sample_index);
 
-            // Per-thread random number generator
-            thread_local Rng rng(seed_ ? *seed_ + threadid : math::rng_seed());
+            auto& rng = rngs[threadid];
 
             // ------------------------------------------------------------------------------------
 
-- 
2.43.0


From 82b2f59aa79fe7dcaf29d96e9c0eaf4f0a95d973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:33 +0000
Subject: [PATCH 16/60] fix: report unresolved references of volume::multi as
 an error

---
 src/volume/volume_multi.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/volume/volume_multi.cpp b/src/volume/volume_multi.cpp
index 93fd841..0da29a4 100644
--- a/src/volume/volume_multi.cpp
+++ b/src/volume/volume_multi.cpp
@@ -56,6 +56,8 @@ public:
         for( unsigned int i = 0; i < size_; i++ ){
             volumes_alb_.push_back( comp::get<Volume>(vol_ref_alb[i]) );
             volumes_den_.push_back( comp::get<Volume>(vol_ref_den[i]) );
+            if (!volumes_alb_.back() || !volumes_den_.back())
+                LM_THROW_EXCEPTION(Error::InvalidArgument, "volumes_alb[{}] or volumes_den[{}] is not a volume", i, i);
 
             if (!volumes_alb_.back()->has_color())
                 LM_THROW_EXCEPTION(Error::InvalidArgument, "volumes_alb[{}] has no albedo/color", i);
-- 
2.43.0


From ae5767d1965d4b0e5116d897bee19bc09eb8062e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:22 +0000
Subject: [PATCH 17/60] fix: use the background color for points at infinity
 when visualizing normals

---
 src/renderer/renderer_raycast.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/renderer/renderer_raycast.cpp b/src/renderer/renderer_raycast.cpp
index 5667438..2244fda 100644
--- a/src/renderer/renderer_raycast.cpp
+++ b/src/renderer/renderer_raycast.cpp
@@ -76,7 +76,11 @@ public:
                 film_->set_pixel(x, y, bg_color_);
                 return;
             }
-            if (visualize_normal_) {
+            if (visualize_normal_ && sp->geom.infinite) {
+                // No normal is associated with a point at infinity
+                film_->set_pixel(x, y, bg_color_);
+            }
+            else if (visualize_normal_) {
                 film_->set_pixel(x, y, glm::abs(sp->geom.n));
             }
             else {
-- 
2.43.0


From 0afa2cc53f0154fc9a7a00d5584ad918b8c77244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:12 +0000
Subject: [PATCH 18/60] fix: clamp raster positions far outside of the film to
 the nearest pixel

---
 include/lm/film.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lm/film.h b/include/lm/film.h
index 68c2663..3a7f6b2 100644
--- a/include/lm/film.h
+++ b/include/lm/film.h
@@ -165,8 +165,8 @@ public:
     */
     glm::ivec2 raster_to_pixel(Vec2 rp) const {
         const auto [w, h] = size();
-        const int x = glm::clamp((int)(rp.x * Float(w)), 0, w-1);
-        const int y = glm::clamp((int)(rp.y * Float(h)), 0, h-1);
+        const int x = (int)glm::clamp(rp.x * Float(w), 0_f, Float(w-1));
+        const int y = (int)glm::clamp(rp.y * Float(h), 0_f, Float(h-1));
         return {x, y};
     }
 
-- 
2.43.0


From c96589a5c3545b58a4c3a419d0fe60ed4fa1d04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:38 +0000
Subject: [PATCH 19/60] fix: reject missing child nodes when adding children to
 scene groups

---
 src/scene.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scene.cpp b/src/scene.cpp
index f3d8556..54aef03 100644
--- a/src/scene.cpp
+++ b/src/scene.cpp
@@ -153,6 +153,11 @@ public:
             return;
         }
 
+        if (child < 0 || child >= int(nodes_.size())) {
+            LM_ERROR("Missing child index [index='{}']", child);
+            return;
+        }
+
         node.group.children.push_back(child);
     }
 
-- 
2.43.0


From 4f49469d5f1022b58e255b3715b3fd33e7e5d177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:38 +0000
Subject: [PATCH 20/60] fix: no primitive is the camera in a scene without a
 camera

---
 src/scene.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scene.cpp b/src/scene.cpp
index 54aef03..c69577b 100644
--- a/src/scene.cpp
+++ b/src/scene.cpp
@@ -368,7 +368,7 @@ public:
     }
 
     virtual bool is_camera(const SceneInteraction& sp) const override {
-        return sp.primitive == *camera_;
+        return camera_ && sp.primitive == *camera_;
     }
 
     #pragma endregion
-- 
2.43.0


From 184894596ca0f8d7dfcc1529717d4ebeaefd0ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:28 +0000
Subject: [PATCH 21/60] fix: keep the range of a ray that runs within a face
 plane of a bound

---
 include/lm/math.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lm/math.h b/include/lm/math.h
index 3b23371..cd34235 100644
--- a/include/lm/math.h
+++ b/include/lm/math.h
@@ -148,8 +148,8 @@ struct Bound {
             if (vd < 0) {
                 std::swap(t1, t2);
             }
-            tmin = glm::max(t1, tmin);
-            tmax = glm::min(t2, tmax);
+            tmin = glm::max(tmin, t1);
+            tmax = glm::min(tmax, t2);
             if (tmax < tmin) {
                 return false;
             }
-- 
2.43.0


From de59b88431d845b05699487c88ece73716e96f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:07 +0000
Subject: [PATCH 22/60] fix: build the hierarchy when the number of hardware
 threads is unknown

---
 src/accel/accel_sahbvh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/accel/accel_sahbvh.cpp b/src/accel/accel_sahbvh.cpp
index 786abe3..29af4b6 100644
--- a/src/accel/accel_sahbvh.cpp
+++ b/src/accel/accel_sahbvh.cpp
@@ -257,7 +257,7 @@ public:
             }
         };
         LM_INFO("Building");
-        std::vector<std::thread> ths(std::thread::hardware_concurrency());
+        std::vector<std::thread> ths(std::max(1u, std::thread::hardware_concurrency()));
         for (auto& th : ths) {
             th = std::thread(process);
         }
-- 
2.43.0


From 2b91c41467efa755101f534ed819ace150d976b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:24 +0000
Subject: [PATCH 23/60] fix: account for the light selection in the weight of a
 sampled light position

---
 include/lm/path.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lm/path.h b/include/lm/path.h
index 1a1ddaf..bdec906 100644
--- a/include/lm/path.h
+++ b/include/lm/path.h
@@ -293,7 +293,7 @@ static std::optional<PositionSample> sample_position(const PositionSampleU& u, c
                 light_primitive_index.index,
                 s->geom
             ),
-            s->weight
+            s->weight / p_sel
         };
     }
     LM_UNREACHABLE_RETURN();
-- 
2.43.0


From 0e322b289e7998ce63bc8bfe0dbf8dfb0b751933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:24 +0000
Subject: [PATCH 24/60] fix: density of positions on scaled area lights

---
 src/light/light_area.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/light/light_area.cpp b/src/light/light_area.cpp
index c2803f9..a9a8f06 100644
--- a/src/light/light_area.cpp
+++ b/src/light/light_area.cpp
@@ -37,11 +37,11 @@ public:
     }
 
 private:
-    Float tranformed_invA(const Transform& transform) const {
-        // TODO: Handle degenerated axis
-        // e.g., scaling by (.2,.2,.2) leads J=1/5^3
-        // but the actual change of areae is J=1/5^2
-        return invA_ / transform.J;
+    // Density of the position in the transformed area measure.
+    // gn is the normal of the transformed triangle. An area orthogonal to
+    // the normal is scaled by J / |M^T gn|, e.g., 1/5^2 for scaling by (.2,.2,.2).
+    Float tranformed_invA(const Transform& transform, Vec3 gn) const {
+        return invA_ * glm::length(glm::transpose(Mat3(transform.M)) * gn) / transform.J;
     }
 
     PointGeometry sample_position_on_triangle_mesh(Vec2 up, Float upc, const Transform& transform) const {
@@ -78,7 +78,7 @@ public:
     virtual std::optional<RaySample> sample_ray(const RaySampleU& us, const Transform& transform) const override {
         // Sample position
         const auto geomL = sample_position_on_triangle_mesh(us.up, us.upc, transform);
-        const auto pA = tranformed_invA(transform);
+        const auto pA = tranformed_invA(transform, geomL.gn);
         
         // Sample direction
         const auto wo_local = math::sample_cosine_weighted(us.ud);
@@ -132,15 +132,15 @@ public:
 
     virtual std::optional<PositionSample> sample_position(const PositionSampleU& us, const Transform& transform) const override {
         const auto geomL = sample_position_on_triangle_mesh(us.up, us.upc, transform);
-        const auto pA = tranformed_invA(transform);
+        const auto pA = tranformed_invA(transform, geomL.gn);
         return PositionSample{
             geomL,
             Vec3(1_f / pA)
         };
     }
 
-    virtual Float pdf_position(const PointGeometry&, const Transform& transform) const override {
-        return tranformed_invA(transform);
+    virtual Float pdf_position(const PointGeometry& geom, const Transform& transform) const override {
+        return tranformed_invA(transform, geom.gn);
     }
 
     // --------------------------------------------------------------------------------------------
@@ -165,7 +165,7 @@ public:
             return 0_f;
         }
         const auto G = surface::geometry_term(geom, geomL);
-        return G == 0_f ? 0_f : tranformed_invA(transform) / G;
+        return G == 0_f ? 0_f : tranformed_invA(transform, geomL.gn) / G;
     }
 
     // --------------------------------------------------------------------------------------------
-- 
2.43.0


From bb90db801cd01d8d160aaa177d59a6c23eee172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:24 +0000
Subject: [PATCH 25/60] fix: density of rays of directional lights when delta
 functions are evaluated

---
 src/light/light_directional.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/light/light_directional.cpp b/src/light/light_directional.cpp
index c8948de..4ee8112 100644
--- a/src/light/light_directional.cpp
+++ b/src/light/light_directional.cpp
@@ -69,7 +69,7 @@ public:
 
     virtual Float pdf_ray(const PointGeometry&, Vec3, const Transform&, bool eval_delta) const override {
         const auto pA = 1_f / (Pi * sphere_bound_.radius * sphere_bound_.radius);
-        return eval_delta ? 1_f : pA;
+        return eval_delta ? 0_f : pA;
     }
 
     // --------------------------------------------------------------------------------------------
-- 
2.43.0


From 7a415e28373bdbbd95fc9227310bd719ac7116ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:24 +0000
Subject: [PATCH 26/60] fix: weight of the pixels of environment maps

---
 src/light/light_env.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/light/light_env.cpp b/src/light/light_env.cpp
index 0803f91..1f15fae 100644
--- a/src/light/light_env.cpp
+++ b/src/light/light_env.cpp
@@ -67,7 +67,7 @@ public:
             const int x = i % w;
             const int y = i / w;
             const auto v = envmap_->eval_by_pixel_coords(x, y) * scale_;
-            ls[i] = glm::compMax(v) * std::sin(Pi * (Float(i) / w + .5_f) / h);
+            ls[i] = glm::compMax(v) * std::sin(Pi * (Float(y) + .5_f) / h);
         }
         dist_.init(ls, w, h);
     }
-- 
2.43.0


From cc739d7e3ed9093d75a1307c0e471f4034e5aa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:24 +0000
Subject: [PATCH 27/60] fix: no importance outside of the view in direct
 sampling of pinhole cameras

---
 src/camera/camera_pinhole.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/camera/camera_pinhole.cpp b/src/camera/camera_pinhole.cpp
index 3a00e78..76c542b 100644
--- a/src/camera/camera_pinhole.cpp
+++ b/src/camera/camera_pinhole.cpp
@@ -182,7 +182,7 @@ public:
         }
         const auto geomE = PointGeometry::make_degenerated(position_);
         const auto wo = glm::normalize(geom.p - position_);
-        const auto We = Vec3(J(wo));
+        const auto We = eval(wo);
         const auto p = pdf_direct(geom, geomE, wo);
         if (p == 0_f) {
             return {};
-- 
2.43.0


From f2f8a5b837584fbf586f105b34a705e8f1de2d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:24 +0000
Subject: [PATCH 28/60] fix: initialize the look-at point and the up vector of
 pinhole cameras given by a matrix

---
 src/camera/camera_pinhole.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/camera/camera_pinhole.cpp b/src/camera/camera_pinhole.cpp
index 76c542b..369f03b 100644
--- a/src/camera/camera_pinhole.cpp
+++ b/src/camera/camera_pinhole.cpp
@@ -82,6 +82,8 @@ public:
             u_ = -viewM3[0];
             v_ = viewM3[1];
             w_ = -viewM3[2];
+            center_ = position_ - w_;
+            up_ = v_;
         }
         else {
             position_ = json::value<Vec3>(prop, "position"); // Camera position
-- 
2.43.0


From f8ec4257118e57673b678bd3fb311f14ec2539d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:44 +0000
Subject: [PATCH 29/60] fix: bound of gaussian volumes that are wider than one
 unit

---
 src/volume/volume_gaussian.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/volume/volume_gaussian.cpp b/src/volume/volume_gaussian.cpp
index 1fc4cee..76ba5d0 100644
--- a/src/volume/volume_gaussian.cpp
+++ b/src/volume/volume_gaussian.cpp
@@ -51,7 +51,7 @@ public:
     Bound computeBound(const Vec3 &sigma) const {
         auto compAC = [&](Float s) -> Float {
             //the first 2._f is empirical: when scalar is large, Eps is not enough
-            return 2._f*sqrt(-2._f*s*std::log(Eps)); };
+            return 2._f*sqrt(-2._f*s*s*std::log(Eps)); };
         Float ac = std::max(std::max(compAC(sigma.x), compAC(sigma.y)), compAC(sigma.z));
         Bound b;
         b.max = pos_ + ac;
-- 
2.43.0


From 63f69b15219fff033ce49899278dbec04afbda6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:48 +0000
Subject: [PATCH 30/60] fix: weight of the transparent part of alpha-masked OBJ
 materials

---
 src/model/model_wavefrontobj.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/model_wavefrontobj.cpp b/src/model/model_wavefrontobj.cpp
index 66ee166..0ab9bdd 100644
--- a/src/model/model_wavefrontobj.cpp
+++ b/src/model/model_wavefrontobj.cpp
@@ -472,7 +472,7 @@ public:
             const auto C = f / p;
             return DirectionSample{
                 wo,
-                Vec3(1_f)
+                C
             };
         }
     }
-- 
2.43.0


From bea36da45d7fe7f5fa8d8ac2777dd29e339165f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:09 +0000
Subject: [PATCH 31/60] fix: load all vertices of faces with more than four
 vertices of OBJ files

---
 src/objloader/objloader_simple.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/objloader/objloader_simple.cpp b/src/objloader/objloader_simple.cpp
index b643b22..707cf1c 100644
--- a/src/objloader/objloader_simple.cpp
+++ b/src/objloader/objloader_simple.cpp
@@ -91,17 +91,14 @@ public:
                 auto& primitive = primitives.back();
 
                 // Parse face indices
-                OBJMeshFaceIndex is[4];
-                for (auto& i : is) {
-                    if (eol(t[0])) {
-                        continue;
-                    }
-                    i = parse_indices(geo, t);
+                std::vector<OBJMeshFaceIndex> is;
+                for (skip_spaces(t); !eol(t[0]); skip_spaces(t)) {
+                    is.push_back(parse_indices(geo, t));
                 }
-                primitive.fs.insert(primitive.fs.end(), {is[0], is[1], is[2]});
-                if (is[3].p != -1) {
-                    // Triangulate quad
-                    primitive.fs.insert(primitive.fs.end(), {is[0], is[2], is[3]});
+
+                // Triangulate polygon
+                for (size_t i = 2; i < is.size(); i++) {
+                    primitive.fs.insert(primitive.fs.end(), {is[0], is[i-1], is[i]});
                 }
             }
             
@@ -164,7 +161,7 @@ public:
 
 private:
     // Checks end of line
-    bool eol(char c) { return c == '\0'; }
+    bool eol(char c) { return c == '\0' || c == '\r' || c == '#'; }
 
     // Checks a character is space-like
     bool whitespace(char c) { return c == ' ' || c == '\t'; };
-- 
2.43.0


From 0e410022ac538f084caf4e4e46f9a611b5748dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:10 +0000
Subject: [PATCH 32/60] fix: refuse OBJ files with invalid faces

---
 src/objloader/objloader_simple.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/objloader/objloader_simple.cpp b/src/objloader/objloader_simple.cpp
index 707cf1c..14af89f 100644
--- a/src/objloader/objloader_simple.cpp
+++ b/src/objloader/objloader_simple.cpp
@@ -96,6 +96,11 @@ public:
                     is.push_back(parse_indices(geo, t));
                 }
 
+                if (is.size() < 3) {
+                    LM_ERROR("Invalid face [path='{}']", path);
+                    return false;
+                }
+
                 // Triangulate polygon
                 for (size_t i = 2; i < is.size(); i++) {
                     primitive.fs.insert(primitive.fs.end(), {is[0], is[i-1], is[i]});
@@ -137,6 +142,19 @@ public:
             }
         }
 
+        // Check face indices. All vertices of a face must have the same attributes.
+        for (const auto& primitive : primitives) {
+            for (size_t i = 0; i < primitive.fs.size(); i++) {
+                const auto& v = primitive.fs[i];
+                const auto& v0 = primitive.fs[i - i % 3];
+                if (v.p < 0 || v.p >= int(geo.ps.size()) || v.t >= int(geo.ts.size()) || v.n >= int(geo.ns.size()) ||
+                    (v.t < 0) != (v0.t < 0) || (v.n < 0) != (v0.n < 0)) {
+                    LM_ERROR("Invalid face index [path='{}']", path);
+                    return false;
+                }
+            }
+        }
+
         // Create a default material if MTL file is missing
         if (ms_.empty()) {
             ms_.push_back({ "default", -1, Vec3(1) });
@@ -201,7 +219,8 @@ private:
     }
 
     // Parses vertex index. See specification of obj file for detail.
-    int parse_index(int i, int vn) { return i < 0 ? vn + i : i > 0 ? i - 1 : -1; }
+    // Returns -1 for missing index, or an invalid index if a relative index is out of range.
+    int parse_index(int i, int vn) { return i < -vn ? std::numeric_limits<int>::max() : i < 0 ? vn + i : i > 0 ? i - 1 : -1; }
     OBJMeshFaceIndex parse_indices(OBJSurfaceGeometry& geo, char *&t) {
         OBJMeshFaceIndex i;
         skip_spaces(t);
-- 
2.43.0


From 8e4ce72f8efbd062b15566ec3002aeda5c7f3849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:10 +0000
Subject: [PATCH 33/60] fix: do not stop at long lines of OBJ and MTL files

---
 src/objloader/objloader_simple.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/objloader/objloader_simple.cpp b/src/objloader/objloader_simple.cpp
index 14af89f..4f1beb0 100644
--- a/src/objloader/objloader_simple.cpp
+++ b/src/objloader/objloader_simple.cpp
@@ -27,7 +27,8 @@ public:
         msmap_.clear();
 
         LM_INFO("Loading OBJ file [path='{}']", fs::path(path).filename().string());
-        char l[4096], name[256];
+        char name[256];
+        std::string l;
         std::ifstream f(path);
         if (!f) {
             LM_ERROR("Missing OBJ file [path='{}']", path);
@@ -48,8 +49,8 @@ public:
         int curr_material_index = 0;
 
         // Parse .obj file line by line
-        while (f.getline(l, 4096)) {
-            char *t = l;
+        while (std::getline(f, l)) {
+            char *t = l.data();
             skip_spaces(t);
 
             // ----- Parse vertex position
@@ -253,9 +254,10 @@ private:
             LM_ERROR("Missing MLT file [path='{}']", p);
             return false;
         }
-        char l[4096], name[256];
-        while (f.getline(l, 4096)) {
-            auto *t = l;
+        char name[256];
+        std::string l;
+        while (std::getline(f, l)) {
+            auto *t = l.data();
             skip_spaces(t);
             if (command(t, "newmtl", 6)) {
                 next_string(t += 7, name);
-- 
2.43.0


From bb85c2fb6c9d37ab5f36007887f3099f9614f41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:10 +0000
Subject: [PATCH 34/60] fix: do not write beyond the buffer for long names in
 OBJ and MTL files

---
 src/objloader/objloader_simple.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/objloader/objloader_simple.cpp b/src/objloader/objloader_simple.cpp
index 4f1beb0..5350d4c 100644
--- a/src/objloader/objloader_simple.cpp
+++ b/src/objloader/objloader_simple.cpp
@@ -239,10 +239,11 @@ private:
     // Parses a string
     template <int N>
     void next_string(char *&t, char (&name)[N]) {
+        name[0] = '\0';
         #if LM_COMPILER_MSVC
         sscanf_s(t, "%s", name, N);
         #else
-        sscanf(t, "%s", name);
+        sscanf(t, fmt::format("%{}s", N - 1).c_str(), name);
         #endif
     };
 
-- 
2.43.0


From 60b0d4192b3a26db973e947256bbf12e70d06763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:10 +0000
Subject: [PATCH 35/60] fix: no meshes and lights for groups of OBJ files
 without faces

---
 src/objloader/objloader_simple.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/objloader/objloader_simple.cpp b/src/objloader/objloader_simple.cpp
index 5350d4c..c7c8db4 100644
--- a/src/objloader/objloader_simple.cpp
+++ b/src/objloader/objloader_simple.cpp
@@ -170,6 +170,9 @@ public:
 
         // Process parsed primitives
         for (const auto& primitive : primitives) {
+            if (primitive.fs.empty()) {
+                continue;
+            }
             if (!process_mesh(primitive.fs, ms_.at(primitive.material_index))) {
                 return false;
             }
-- 
2.43.0


From 1f38aa5f1f9b125bf5550395253841dd17a58843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:10 +0000
Subject: [PATCH 36/60] fix: distinct and valid names of the assets of OBJ
 models

---
 src/model/model_wavefrontobj.cpp | 47 +++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/model/model_wavefrontobj.cpp b/src/model/model_wavefrontobj.cpp
index 0ab9bdd..4177da8 100644
--- a/src/model/model_wavefrontobj.cpp
+++ b/src/model/model_wavefrontobj.cpp
@@ -66,6 +66,17 @@ public:
         }
     }
 
+private:
+    // Make a name of an underlying asset from the given name
+    // which is valid as a part of locator and not used by the other assets
+    std::string make_asset_name(std::string name) const {
+        std::replace(name.begin(), name.end(), '.', '_');
+        while (assets_map_.find(name) != assets_map_.end()) {
+            name += "_";
+        }
+        return name;
+    }
+
 public:
     virtual Component* underlying(const std::string& name) const override {
         const auto it = assets_map_.find(name);
@@ -74,11 +85,13 @@ public:
 
 	virtual void construct(const Json& prop) override {
         const std::string path = json::value<std::string>(prop, "path");
+        std::unordered_map<std::string, int> material_map;          // Material name -> asset index
+        std::unordered_map<std::string, std::string> texture_map;   // Texture path -> asset name
         const bool result = objloader::load(path, geo_,
             // Process mesh
             [&](const OBJMeshFace& fs, const MTLMatParams& m) -> bool {
                 // Create mesh
-                const std::string mesh_name = fmt::format("mesh_{}", assets_.size());
+                const std::string mesh_name = make_asset_name(fmt::format("mesh_{}", assets_.size()));
                 auto mesh = comp::create<Mesh>(
                     "mesh::wavefrontobj_ref", make_loc(mesh_name),
                     json::merge(prop, {
@@ -96,7 +109,7 @@ public:
                 int light_index = -1;
                 if (glm::compMax(m.Ke) > 0_f) {
                     const auto light_impl_name = json::value<std::string>(prop, "light", "light::area");
-                    const auto light_name = mesh_name + "_light";
+                    const auto light_name = make_asset_name(mesh_name + "_light");
                     auto light = comp::create<Light>(light_impl_name, make_loc(light_name), {
                         {"Ke", m.Ke},
                         {"mesh", make_loc(mesh_name)}
@@ -110,22 +123,24 @@ public:
                 }
 
                 // Create mesh group
-                groups_.push_back({ assets_map_[mesh_name], assets_map_[m.name], light_index });
+                groups_.push_back({ assets_map_[mesh_name], material_map[m.name], light_index });
 
                 return true;
             },
 
             // Process material
             [&](const MTLMatParams& m) -> bool {
+                const auto mat_name = make_asset_name(m.name);
+
                 // Load user-specified material if given
                 if (const auto it = prop.find("base_material"); it != prop.end()) {
-                    auto mat = comp::create<Material>("material::proxy", make_loc(m.name), {
+                    auto mat = comp::create<Material>("material::proxy", make_loc(mat_name), {
                         {"ref", *it}
                     });
                     if (!mat) {
                         return false;
                     }
-                    assets_map_[m.name] = int(assets_.size());
+                    material_map[m.name] = assets_map_[mat_name] = int(assets_.size());
                     assets_.push_back(std::move(mat));
                     return true;
                 }
@@ -133,12 +148,12 @@ public:
                 // Load texture
                 std::string mapKd_loc;
                 if (!m.mapKd.empty()) {
-                    // Use texture_<filename> as an identifier
-                    const auto id = "texture_" + fs::path(m.mapKd).stem().string();
-
                     // Check if already loaded
-                    if (auto it = assets_map_.find(id); it == assets_map_.end()) {
+                    auto& id = texture_map[m.mapKd];
+                    if (id.empty()) {
                         // If not loaded, load the texture
+                        // Use texture_<filename> as an identifier
+                        id = make_asset_name("texture_" + fs::path(m.mapKd).stem().string());
                         const auto textureAssetName = json::value<std::string>(prop, "texture", "texture::bitmap");
                         auto texture = comp::create<Texture>(textureAssetName, make_loc(id), {
                             {"path", (fs::path(path).remove_filename()/m.mapKd).string()}
@@ -161,17 +176,17 @@ public:
                     if (skip_specular_mat) {
                         // Skip specular material. Use black material.
                         mat = comp::create<Material>(
-                            "material::diffuse", make_loc(m.name), { {"Kd", Vec3(0_f)} });
+                            "material::diffuse", make_loc(mat_name), { {"Kd", Vec3(0_f)} });
                     }
                     else if (m.illum == 7) {
                         // Glass
                         mat = comp::create<Material>(
-                            "material::glass", make_loc(m.name), { {"Ni", m.Ni} });
+                            "material::glass", make_loc(mat_name), { {"Ni", m.Ni} });
                     }
                     else if (m.illum == 5) {
                         // Mirror
                         mat = comp::create<Material>(
-                            "material::mirror", make_loc(m.name), {});
+                            "material::mirror", make_loc(mat_name), {});
                     }
                 }
                 else {
@@ -180,7 +195,7 @@ public:
                     if (math::is_zero(m.Ks)) {
                         // Diffuse material
                         mat = comp::create<Material>(
-                            "material::diffuse", make_loc(m.name), {
+                            "material::diffuse", make_loc(mat_name), {
                                 {"Kd", m.Kd},
                                 {"mapKd", mapKd_loc}
                             });
@@ -190,7 +205,7 @@ public:
                         const auto r = 2_f / (2_f + m.Ns);
                         const auto as = math::safe_sqrt(1_f - m.an * .9_f);
                         mat = comp::create<Material>(
-                            "material::glossy", make_loc(m.name), {
+                            "material::glossy", make_loc(mat_name), {
                                 {"Ks", m.Ks},
                                 {"ax", std::max(1e-3_f, r / as)},
                                 {"ay", std::max(1e-3_f, r * as)}
@@ -205,7 +220,7 @@ public:
                     // Default mixture material of D and G
                     mat = comp::create<Material>(
                         "material::mixture_wavefrontobj",
-                        make_loc(m.name),
+                        make_loc(mat_name),
                         {
                             {"Kd", m.Kd},
                             {"mapKd", mapKd_loc},
@@ -219,7 +234,7 @@ public:
                 if (!mat) {
                     return false;
                 }
-                assets_map_[m.name] = int(assets_.size());
+                material_map[m.name] = assets_map_[mat_name] = int(assets_.size());
                 assets_.push_back(std::move(mat));
 
                 return true;
-- 
2.43.0


From ab0e4bce7de006bbde65e1337874097c0069f290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:51 +0000
Subject: [PATCH 37/60] fix: densities of 2d distributions with rows without
 weight are not NaN

---
 include/lm/math.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/lm/math.h b/include/lm/math.h
index cd34235..6985608 100644
--- a/include/lm/math.h
+++ b/include/lm/math.h
@@ -345,6 +345,10 @@ struct Dist {
     */
     void norm() {
         const auto sum = c.back();
+        if (sum == 0_f) {
+            // No entry has a weight, all pmfs are zero
+            return;
+        }
         for (auto& v : c) {
             v /= sum;
         }
-- 
2.43.0


From 50d1ae1e276dc2d90f84a38ae7f6a2baa5f88fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:52 +0000
Subject: [PATCH 38/60] fix: initializing a 2d distribution again replaces the
 previous weights

---
 include/lm/math.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/lm/math.h b/include/lm/math.h
index 6985608..704e441 100644
--- a/include/lm/math.h
+++ b/include/lm/math.h
@@ -401,6 +401,7 @@ struct Dist2 {
         w = cols;
         h = rows;
         ds.assign(h, {});
+        m.clear();
         for (int i = 0; i < h; i++) {
             auto& d = ds[i];
             for (int j = 0; j < w; j++) {
-- 
2.43.0


From b88f5156691dd77855ce52892979dac3be06fa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:52 +0000
Subject: [PATCH 39/60] fix: distance sampling in scenes without medium

---
 include/lm/path.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/lm/path.h b/include/lm/path.h
index bdec906..6de076f 100644
--- a/include/lm/path.h
+++ b/include/lm/path.h
@@ -613,7 +613,15 @@ static std::optional<DistanceSample> sample_distance(Rng& rng, const Scene* scen
     const auto dist = hit && !hit->geom.infinite ? glm::length(hit->geom.p - sp.geom.p) : Inf;
 
     // Sample a distance
-    const auto* medium = scene->node_at(scene->medium_node()).primitive.medium;
+    const int medium_index = scene->medium_node();
+    if (medium_index == -1) {
+        // Without medium, the next interaction is on the surface
+        if (!hit) {
+            return {};
+        }
+        return DistanceSample{ *hit, Vec3(1_f) };
+    }
+    const auto* medium = scene->node_at(medium_index).primitive.medium;
     const auto ds = medium->sample_distance(rng, { sp.geom.p, wo }, 0_f, dist);
     if (ds && ds->medium) {
         // Medium interaction
-- 
2.43.0


From 6c54769676efb9653b44eaa964d554748df8e379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:57 +0000
Subject: [PATCH 40/60] fix: keep progress messages readable

Progress and ProgressEnd had the same value, so the end of a progress was
never followed by a newline, and the padding which hides a longer previous
message was always reset.
---
 include/lm/logger.h |  2 +-
 src/logger.cpp      | 39 +++++++++++++++++----------------------
 2 files changed, 18 insertions(+), 23 deletions(-)

diff --git a/include/lm/logger.h b/include/lm/logger.h
index 85e544c..32ebc0f 100644
--- a/include/lm/logger.h
+++ b/include/lm/logger.h
@@ -84,7 +84,7 @@ enum class LogLevel : int {
         used in the end of the progress message.
         \endrst
     */
-    ProgressEnd = 100,
+    ProgressEnd = 101,
 };
 
 /*!
diff --git a/src/logger.cpp b/src/logger.cpp
index cba1e45..d510a3b 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -26,6 +26,7 @@ private:
     std::mutex mutex_;
     bool color_;
     bool show_line_and_file_;
+    size_t progress_message_len_ = 0;   // Length of the progress message in the current line
 
     struct Style {
         std::string name;
@@ -83,6 +84,11 @@ public:
                 line_and_filename.substr(0, 10));
         }
 
+        // White spaces to hide the progress message already written in the current line
+        const auto whitespaces = [&](size_t message_len) {
+            return std::string(progress_message_len_ > message_len ? progress_message_len_ - message_len : 0, ' ');
+        };
+
         // Case with progress message
         // Progress message does not support multiline message.
         if (level == LogLevel::Progress || level == LogLevel::ProgressEnd) {
@@ -91,23 +97,7 @@ public:
                 indentation_string_,
                 message);
 
-            // Calculate white spaces to hide already written message if necessary.
-            // Keep track of maximum message length for progress outputs.
-            static int max_progress_message_len = 0;
-            static std::string whitespaces;
-            if (level == LogLevel::Progress || level == LogLevel::ProgressEnd) {
-                // Current message length
-                const int messageLen = int(header.size() + body.size());
-
-                // If the current message is shorter than maximum,
-                // hide the message with white spaces.
-                if (max_progress_message_len > messageLen) {
-                    whitespaces.assign(max_progress_message_len - messageLen, ' ');
-                }
-                else {
-                    max_progress_message_len = messageLen;
-                }
-            }
+            const auto message_len = header.size() + body.size();
 
             // Print formatted log message
             if (color_) {
@@ -116,12 +106,16 @@ public:
             else {
                 std::cout << header;
             }
-            std::cout << body << whitespaces << "\r" << std::flush;
+            std::cout << body << whitespaces(message_len);
 
-            // ProgressEnd incurs newline so reset the cached values
+            // ProgressEnd incurs newline
             if (level == LogLevel::ProgressEnd) {
-                max_progress_message_len = 0;
-                whitespaces.clear();
+                std::cout << "\n" << std::flush;
+                progress_message_len_ = 0;
+            }
+            else {
+                std::cout << "\r" << std::flush;
+                progress_message_len_ = message_len;
             }
         }
         // Other message types
@@ -140,7 +134,8 @@ public:
                 else {
                     std::cout << header;
                 }
-                std::cout << body << "\n" << std::flush;
+                std::cout << body << whitespaces(header.size() + body.size()) << "\n" << std::flush;
+                progress_message_len_ = 0;
             };
 
             if (strlen(message) == 0) {
-- 
2.43.0


From ea51e67a223a4f47a348fb05b5beedb23b601b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:57 +0000
Subject: [PATCH 41/60] fix: report use of assets before init as an error
 instead of dereferencing null

---
 src/user.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/user.cpp b/src/user.cpp
index dfa83f6..68abb0d 100644
--- a/src/user.cpp
+++ b/src/user.cpp
@@ -50,6 +50,13 @@ private:
 			"Lightmetrica is not initialize. Call lm::init() function.");
 	}
 
+	// Check if the root asset group is created.
+	void check_assets() const {
+		if (!root_assets_) {
+			check_initialized();
+		}
+	}
+
 public:
     void init(const Json&) {
         exception::init();
@@ -93,6 +100,7 @@ public:
     }
 
     AssetGroup* assets() {
+		check_assets();
         return root_assets_.get();
     }
 
@@ -102,11 +110,13 @@ public:
     }
 
     void save_state_to_file(const std::string& path) {
+		check_assets();
         std::ofstream os(path, std::ios::out | std::ios::binary);
         serial::save_comp(os, root_assets_, root_assets_->loc());
     }
 
     void load_state_from_file(const std::string& path) {
+		check_assets();
         std::ifstream is(path, std::ios::in | std::ios::binary);
         const auto loc = root_assets_->loc();
 
-- 
2.43.0


From 57d16291679ea92fa9d1eaa7b48d6c5ceb3da80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:57 +0000
Subject: [PATCH 42/60] fix: report an error if the state cannot be written to
 the file

---
 src/user.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/user.cpp b/src/user.cpp
index 68abb0d..8c4af14 100644
--- a/src/user.cpp
+++ b/src/user.cpp
@@ -113,6 +113,10 @@ public:
 		check_assets();
         std::ofstream os(path, std::ios::out | std::ios::binary);
         serial::save_comp(os, root_assets_, root_assets_->loc());
+        os.close();
+        if (!os) {
+            LM_THROW_EXCEPTION(Error::IOError, "Failed to write state file [path='{}']", path);
+        }
     }
 
     void load_state_from_file(const std::string& path) {
-- 
2.43.0


From ff5d4bd074fff97fd6eaf026a2fae832abc910c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:58 +0000
Subject: [PATCH 43/60] fix: report failure if a pfm image cannot be written
 completely

---
 src/film/film_bitmap.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/film/film_bitmap.cpp b/src/film/film_bitmap.cpp
index cf3a60a..099c81c 100644
--- a/src/film/film_bitmap.cpp
+++ b/src/film/film_bitmap.cpp
@@ -74,8 +74,11 @@ namespace image {
         }
         #endif
         fprintf(f, "PF\n%d %d\n-1\n", w, h);
-        fwrite(d.data(), 4, d.size(), f);
-        fclose(f);
+        const bool written = fwrite(d.data(), 4, d.size(), f) == d.size();
+        if (fclose(f) != 0 || !written) {
+            LM_ERROR("Failed to write [file='{}']", outpath);
+            return false;
+        }
         return true;
     }
 
-- 
2.43.0


From 186b6fe88e50024b4f59dff085027d80031eed03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:57 +0000
Subject: [PATCH 44/60] fix: grayscale textures were read beyond their
 components

---
 src/texture/texture_bitmap.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/texture/texture_bitmap.cpp b/src/texture/texture_bitmap.cpp
index a10d9f9..134071f 100644
--- a/src/texture/texture_bitmap.cpp
+++ b/src/texture/texture_bitmap.cpp
@@ -36,6 +36,15 @@ private:
     int c_;     // Number of components
     std::vector<float> data_;
 
+private:
+    // Color of i-th pixel. An image with one or two components is grayscale.
+    Vec3 color_at(int i) const {
+        if (c_ < 3) {
+            return Vec3(data_[c_*i]);
+        }
+        return Vec3(data_[c_*i], data_[c_*i+1], data_[c_*i+2]);
+    }
+
 public:
     LM_SERIALIZE_IMPL(ar) {
         ar(w_, h_, c_, data_);
@@ -71,12 +80,12 @@ public:
         const int x = std::clamp(int(u * w_), 0, w_ - 1);
         const int y = std::clamp(int(v * h_), 0, h_ - 1);
         const int i = w_ * y + x;
-        return Vec3(data_[c_*i], data_[c_*i+1], data_[c_*i+2]);
+        return color_at(i);
     }
 
     virtual Vec3 eval_by_pixel_coords(int x, int y) const override {
         const int i = w_*y + x;
-        return Vec3(data_[c_*i], data_[c_*i+1], data_[c_*i+2]);
+        return color_at(i);
     }
 
     virtual Float eval_alpha(Vec2 t) const override {
@@ -85,11 +94,12 @@ public:
         const int x = std::clamp(int(u * w_), 0, w_ - 1);
         const int y = std::clamp(int(v * h_), 0, h_ - 1);
         const int i = w_ * y + x;
-        return data_[c_*i+3];
+        return data_[c_*i+c_-1];
     }
 
     virtual bool has_alpha() const override {
-        return c_ == 4;
+        // Either gray-alpha or RGBA
+        return c_ == 2 || c_ == 4;
     }
 
     virtual TextureBuffer buffer() override {
-- 
2.43.0


From ab9f7638ebc1d23a5c05abfb375a761fd9d1c1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:42 +0000
Subject: [PATCH 45/60] fix: an environment map seen straight down showed its
 top row

---
 src/light/light_env.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/light/light_env.cpp b/src/light/light_env.cpp
index 1f15fae..adef732 100644
--- a/src/light/light_env.cpp
+++ b/src/light/light_env.cpp
@@ -198,7 +198,9 @@ public:
             return at < 0_f ? at + 2_f * Pi : at;
         }();
         const auto t = (at - rot_) * .5_f / Pi;
-        return envmap_->eval({ t - floor(t), acos(d.y) / Pi }) * scale_;
+        // v = 1 (bottom pole) must not wrap around to the top of the environment map
+        const auto v = std::min(std::acos(glm::clamp(d.y, -1_f, 1_f)) / Pi, 1_f - std::numeric_limits<Float>::epsilon());
+        return envmap_->eval({ t - floor(t), v }) * scale_;
     }
 };
 
-- 
2.43.0


From 00c4ac34b8edaa2dcf39401536d61bfeb63af304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:36 +0000
Subject: [PATCH 46/60] fix: report unknown sampling modes and schedulers of
 renderers

An unknown name left the members of the renderer uninitialised or its
scheduler null, and rendering crashed.
---
 src/renderer/renderer_bdpt.cpp    | 3 +++
 src/renderer/renderer_bdptopt.cpp | 3 +++
 src/renderer/renderer_lt.cpp      | 3 +++
 src/renderer/renderer_pt.cpp      | 9 +++++++++
 src/renderer/renderer_volpt.cpp   | 3 +++
 5 files changed, 21 insertions(+)

diff --git a/src/renderer/renderer_bdpt.cpp b/src/renderer/renderer_bdpt.cpp
index 26b050b..af09d5a 100644
--- a/src/renderer/renderer_bdpt.cpp
+++ b/src/renderer/renderer_bdpt.cpp
@@ -72,6 +72,9 @@ public:
         const auto sched_name = json::value<std::string>(prop, "scheduler");
         sched_ = comp::create<scheduler::Scheduler>(
             "scheduler::spi::" + sched_name, make_loc("scheduler"), prop);
+        if (!sched_) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid scheduler [name='{}']", sched_name);
+        }
     }
 };
 
diff --git a/src/renderer/renderer_bdptopt.cpp b/src/renderer/renderer_bdptopt.cpp
index b641803..d3b21be 100644
--- a/src/renderer/renderer_bdptopt.cpp
+++ b/src/renderer/renderer_bdptopt.cpp
@@ -454,6 +454,9 @@ public:
         const auto sched_name = json::value<std::string>(prop, "scheduler");
         sched_ = comp::create<scheduler::Scheduler>(
             "scheduler::spi::" + sched_name, make_loc("scheduler"), prop);
+        if (!sched_) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid scheduler [name='{}']", sched_name);
+        }
         #if BDPT_PER_STRATEGY_FILM
         const auto size = film_->size();
         for (int k = 2; k <= max_verts_; k++) {
diff --git a/src/renderer/renderer_lt.cpp b/src/renderer/renderer_lt.cpp
index 3c56662..10a7ad3 100644
--- a/src/renderer/renderer_lt.cpp
+++ b/src/renderer/renderer_lt.cpp
@@ -52,6 +52,9 @@ public:
         const auto sched_name = json::value<std::string>(prop, "scheduler");
         sched_ = comp::create<scheduler::Scheduler>(
             "scheduler::spi::" + sched_name, make_loc("scheduler"), prop);
+        if (!sched_) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid scheduler [name='{}']", sched_name);
+        }
     }
 
     virtual Json render() const override {
diff --git a/src/renderer/renderer_pt.cpp b/src/renderer/renderer_pt.cpp
index e8e4dff..db7ff7e 100644
--- a/src/renderer/renderer_pt.cpp
+++ b/src/renderer/renderer_pt.cpp
@@ -65,6 +65,9 @@ public:
             if (s == "naive")    sampling_mode_ = SamplingMode::Naive;
             else if (s == "nee") sampling_mode_ = SamplingMode::NEE;
             else if (s == "mis") sampling_mode_ = SamplingMode::MIS;
+            else {
+                LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid sampling mode [mode='{}']", s);
+            }
         }
         {
 
@@ -80,6 +83,12 @@ public:
                 sched_ = comp::create<scheduler::Scheduler>(
                     "scheduler::spi::" + name, make_loc("scheduler"), prop);
             }
+            else {
+                LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid primary ray sampling mode [mode='{}']", s);
+            }
+            if (!sched_) {
+                LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid scheduler [name='{}']", name);
+            }
         }
     }
 
diff --git a/src/renderer/renderer_volpt.cpp b/src/renderer/renderer_volpt.cpp
index 68bccca..615e1f6 100644
--- a/src/renderer/renderer_volpt.cpp
+++ b/src/renderer/renderer_volpt.cpp
@@ -58,6 +58,9 @@ public:
         sched_ = comp::create<scheduler::Scheduler>(
             "scheduler::spp::" + sched_name, make_loc("scheduler"), prop);
         #endif
+        if (!sched_) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid scheduler [name='{}']", sched_name);
+        }
     }
 };
 
-- 
2.43.0


From 5840b3a65bffb3793a639ba9ad13a2b118f823b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:36 +0000
Subject: [PATCH 47/60] fix: report a missing or unknown progress context given
 to progress::delay

---
 src/progress.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/progress.cpp b/src/progress.cpp
index dc9beff..7fdfba4 100644
--- a/src/progress.cpp
+++ b/src/progress.cpp
@@ -63,8 +63,15 @@ private:
 public:
     virtual void construct(const Json& prop) override {
         delay_ = milliseconds(json::value<int>(prop, "delay"));
-        auto it = prop["progress"].begin();
+        const auto progress = json::value<Json>(prop, "progress");
+        if (!progress.is_object() || progress.empty()) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid underlying progress context");
+        }
+        const auto it = progress.begin();
         ctx_ = comp::create<ProgressContext>(it.key(), "", it.value());
+        if (!ctx_) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid underlying progress context [name='{}']", it.key());
+        }
     }
 
     virtual void start(ProgressMode mode, long long total, double totalTime) override {
-- 
2.43.0


From d61d9ad2490752ca00a6f844fb29c92bb3b25320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:51 +0000
Subject: [PATCH 48/60] fix: report missing or malformed properties of
 mesh::raw

A missing list or an index out of range was read anyway.
---
 src/mesh/mesh_raw.cpp | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/mesh/mesh_raw.cpp b/src/mesh/mesh_raw.cpp
index 190c4a0..f2d3758 100644
--- a/src/mesh/mesh_raw.cpp
+++ b/src/mesh/mesh_raw.cpp
@@ -48,22 +48,46 @@ public:
 
 public:
     virtual void construct(const Json& prop) override {
-        const auto& ps = prop["ps"];
+        // Get an array of the given property composed of n-tuples
+        const auto array_of = [](const Json& j, const std::string& name, size_t n) -> const Json& {
+            const auto it = j.find(name);
+            if (it == j.end()) {
+                LM_THROW_EXCEPTION(Error::InvalidArgument, "Missing property [name='{}']", name);
+            }
+            if (!it->is_array() || it->size() % n != 0) {
+                LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid number of elements [name='{}']", name);
+            }
+            return *it;
+        };
+        const auto& ps = array_of(prop, "ps", 3);
         for (int i = 0; i < ps.size(); i+=3) {
             ps_.push_back(Vec3(ps[i],ps[i+1],ps[i+2]));
         }
-        const auto& ns = prop["ns"];
+        const auto& ns = array_of(prop, "ns", 3);
         for (int i = 0; i < ns.size(); i+=3) {
             ns_.push_back(Vec3(ns[i],ns[i+1],ns[i+2]));
         }
-        const auto& ts = prop["ts"];
+        const auto& ts = array_of(prop, "ts", 2);
         for (int i = 0; i < ts.size(); i+=2) {
             ts_.push_back(Vec2(ts[i],ts[i+1]));
         }
-        const auto& fs = prop["fs"];
-        const int fs_size = int(fs["p"].size());
+        const auto fs_it = prop.find("fs");
+        if (fs_it == prop.end()) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Missing property [name='fs']");
+        }
+        const auto& fp = array_of(*fs_it, "p", 1);
+        const auto& ft = array_of(*fs_it, "t", 1);
+        const auto& fn = array_of(*fs_it, "n", 1);
+        const int fs_size = int(fp.size());
+        if (ft.size() != fp.size() || fn.size() != fp.size()) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid number of elements [name='fs']");
+        }
         for (int i = 0; i < fs_size; i++) {
-            fs_.push_back(MeshFaceIndex{ fs["p"][i],fs["t"][i],fs["n"][i] });
+            const MeshFaceIndex f{ fp[i],ft[i],fn[i] };
+            if (f.p < 0 || f.p >= int(ps_.size()) || f.t < 0 || f.t >= int(ts_.size()) || f.n < 0 || f.n >= int(ns_.size())) {
+                LM_THROW_EXCEPTION(Error::InvalidArgument, "Index out of range [name='fs', index={}]", i);
+            }
+            fs_.push_back(f);
         }
     }
 
-- 
2.43.0


From 611ef1a71f9cc89921e9c21a25fad4562f23b5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:27 +0000
Subject: [PATCH 49/60] fix: integers beyond 32 bits were refused or truncated
 between Python and Json

---
 include/lm/pylm.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/lm/pylm.h b/include/lm/pylm.h
index 4bb2470..de8591a 100644
--- a/include/lm/pylm.h
+++ b/include/lm/pylm.h
@@ -40,7 +40,18 @@ public:
             value = src.cast<double>();
         }
         else if (isinstance<int_>(src)) {
-            value = src.cast<int>();
+            // Use the widest integer types. Integers that fit in neither of them are not convertible.
+            make_caster<long long> iconv;
+            make_caster<unsigned long long> uconv;
+            if (iconv.load(src, convert)) {
+                value = cast_op<long long>(iconv);
+            }
+            else if (uconv.load(src, convert)) {
+                value = cast_op<unsigned long long>(uconv);
+            }
+            else {
+                return false;
+            }
         }
         else if (isinstance<str>(src)) {
             value = src.cast<std::string>();
@@ -104,9 +115,11 @@ public:
             case value_t::number_float: {
                 return cast_to_python_object<double>(src, policy, std::move(parent));
             }
-            case value_t::number_integer: { [[fallthrough]]; }
+            case value_t::number_integer: {
+                return cast_to_python_object<long long>(src, policy, std::move(parent));
+            }
             case value_t::number_unsigned: {
-                return cast_to_python_object<int>(src, policy, std::move(parent));
+                return cast_to_python_object<unsigned long long>(src, policy, std::move(parent));
             }
             case value_t::string: {
                 return cast_to_python_object<std::string>(src, policy, std::move(parent));
-- 
2.43.0


From 7c2a69e6f044d070d9f66e8171e82a33e165ca8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:28 +0000
Subject: [PATCH 50/60] fix: Python objects that are not components were read
 as components when converted to Json

---
 include/lm/pylm.h | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/include/lm/pylm.h b/include/lm/pylm.h
index de8591a..02ab413 100644
--- a/include/lm/pylm.h
+++ b/include/lm/pylm.h
@@ -82,20 +82,13 @@ public:
             }
         }
         else {
-            // Extract underlying C++ type
-            // Check if the underlying type is registered to pybind,
-            // and the number of base class is one assuming multiple inheritance is not used.
-            auto& bases = all_type_info((PyTypeObject*)src.get_type().ptr());
-            if (bases.size() == 1) {
-                void* ptr = values_and_holders(reinterpret_cast<instance*>(src.ptr())).begin()->value_ptr();
-                auto* comp = static_cast<lm::Component*>(ptr);
-                // Extranct the locator of the instance
-                value = comp->loc();
-                return true;
+            // Extract the locator of the instance if the object is a component.
+            // Objects of any other type are not convertible.
+            make_caster<lm::Component> cconv;
+            if (!cconv.load(src, false)) {
+                return false;
             }
-
-            LM_UNREACHABLE();
-            return false;
+            value = cast_op<lm::Component&>(cconv).loc();
         }
         return true;
     }
-- 
2.43.0


From b848159dacedc7fd9aa0b0b3fa18b0902e52c511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:28 +0000
Subject: [PATCH 51/60] fix: numpy arrays of another size or memory layout were
 read as vectors and matrices

---
 include/lm/pylm.h | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/lm/pylm.h b/include/lm/pylm.h
index 02ab413..8ea2c74 100644
--- a/include/lm/pylm.h
+++ b/include/lm/pylm.h
@@ -196,12 +196,14 @@ struct type_caster<glm::vec<N, T, Q>> {
         }
 
         // Check dimension
-        if (buf.ndim() != 1) {
+        if (buf.ndim() != 1 || buf.shape(0) != N) {
             return false;
         }
 
-        // Copy values
-        memcpy(&value.data, buf.data(), N * sizeof(T));
+        // Copy values, the elements are not necessarily contiguous
+        for (int i = 0; i < N; i++) {
+            value[i] = *static_cast<const T*>(buf.data(i));
+        }
 
         return true;
     }
@@ -254,16 +256,17 @@ struct type_caster<glm::mat<C, R, T, Q>> {
         }
 
         // Check dimension
-        if (buf.ndim() != 2) {
+        if (buf.ndim() != 2 || buf.shape(0) != R || buf.shape(1) != C) {
             return false;
         }
 
-        // Copy values
-        memcpy(&value[0].data, buf.data(), C * R * sizeof(T));
-
-        // Transpose the copied values because
-        // glm is column major on the other hand numpy is row major.
-        value = glm::transpose(value);
+        // Copy values, the elements are not necessarily contiguous.
+        // The first index of glm matrix is a column.
+        for (int i = 0; i < R; i++) {
+            for (int j = 0; j < C; j++) {
+                value[j][i] = *static_cast<const T*>(buf.data(i, j));
+            }
+        }
 
         return true;
     }
-- 
2.43.0


From fd2c3f765b745f6a7b5590020a5c076a679f7dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:28 +0000
Subject: [PATCH 52/60] fix: lm.array created arrays of another type than the
 default floating point type

---
 lightmetrica/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lightmetrica/__init__.py b/lightmetrica/__init__.py
index 2e9700d..b05daa8 100644
--- a/lightmetrica/__init__.py
+++ b/lightmetrica/__init__.py
@@ -22,7 +22,7 @@ def pylm_component(name):
 
 def array(*args, **kwargs):
     """Numpy array with default floating point type of lightmetrica"""
-    kwargs.setdefault('dtype', np.float32)
+    kwargs.setdefault('dtype', np.float32 if FloatT == FloatType.Float32 else np.float64)
     return np.array(*args, **kwargs)
 
 def registered_components():
-- 
2.43.0


From 583deddabaff50f1b3d514ecde5b7a5dd8d99049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:28 +0000
Subject: [PATCH 53/60] fix: lm.registered_components called a function that
 does not exist

---
 lightmetrica/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lightmetrica/__init__.py b/lightmetrica/__init__.py
index b05daa8..689961f 100644
--- a/lightmetrica/__init__.py
+++ b/lightmetrica/__init__.py
@@ -30,5 +30,5 @@ def registered_components():
     comps = []
     def print_name(name):
         comps.append(name)
-    comp.foreachRegistered(print_name)
+    comp.foreach_registered(print_name)
     return comps
\ No newline at end of file
-- 
2.43.0


From b1070a83b7f9be2ce06f11a3de5e9b3117f21f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:28 +0000
Subject: [PATCH 54/60] fix: the maximum of a volume written in Python was
 taken from has_scalar

---
 src/pylm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylm.cpp b/src/pylm.cpp
index bec63f4..a281996 100644
--- a/src/pylm.cpp
+++ b/src/pylm.cpp
@@ -973,7 +973,7 @@ static void bind_volume(pybind11::module& m) {
             PYBIND11_OVERLOAD_PURE(bool, Volume, has_scalar);
         }
         virtual Float max_scalar() const override {
-            PYBIND11_OVERLOAD_PURE(Float, Volume, has_scalar);
+            PYBIND11_OVERLOAD_PURE(Float, Volume, max_scalar);
         }
         virtual Float eval_scalar(Vec3 p) const override {
             PYBIND11_OVERLOAD(Float, Volume, eval_scalar, p);
-- 
2.43.0


From 411d1f3b5631b23f389e633c5b072e164bd5a58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:01 +0000
Subject: [PATCH 55/60] fix: save and load functions of components written in
 Python were ignored except for renderers

---
 src/pylm.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pylm.cpp b/src/pylm.cpp
index a281996..eb88a57 100644
--- a/src/pylm.cpp
+++ b/src/pylm.cpp
@@ -582,6 +582,7 @@ static void bind_scenenode(pybind11::module& m) {
 // Bind scene.h
 static void bind_scene(pybind11::module& m) {
     class Scene_Py final : public Scene {
+        PYLM_SERIALIZE_IMPL(Scene);
         virtual void construct(const Json& prop) override {
             PYBIND11_OVERLOAD(void, Scene, construct, prop);
         }
@@ -737,6 +738,7 @@ static void bind_accel(pybind11::module& m) {
         .def_readwrite("face", &Accel::Hit::face);
 
     class Accel_Py final : public Accel {
+        PYLM_SERIALIZE_IMPL(Accel);
         virtual void construct(const Json& prop) override {
             PYBIND11_OVERLOAD(void, Accel, construct, prop);
         }
@@ -781,6 +783,7 @@ static void bind_texture(pybind11::module& m) {
         .def_readwrite("w", &TextureSize::w)
         .def_readwrite("h", &TextureSize::h);
     class Texture_Py final : public Texture {
+        PYLM_SERIALIZE_IMPL(Texture);
         virtual void construct(const Json& prop) override {
             PYBIND11_OVERLOAD(void, Texture, construct, prop);
         }
@@ -823,6 +826,7 @@ static void bind_mesh(pybind11::module& m) {
         .def_readwrite("p3", &Mesh::Tri::p3);
 
     class Mesh_Py final : public Mesh {
+        PYLM_SERIALIZE_IMPL(Mesh);
         virtual void construct(const Json& prop) override {
             PYBIND11_OVERLOAD(void, Mesh, construct, prop);
         }
@@ -858,6 +862,7 @@ static void bind_material(pybind11::module& m) {
         .def_readwrite("weight", &Material::DirectionSample::weight);
 
     class Material_Py final : public Material {
+        PYLM_SERIALIZE_IMPL(Material);
         virtual void construct(const Json& prop) override {
             PYBIND11_OVERLOAD(void, Material, construct, prop);
         }
@@ -903,6 +908,7 @@ static void bind_phase(pybind11::module& m) {
         .def_readwrite("weight", &Phase::DirectionSample::weight);
 
     class Phase_Py final : public Phase {
+        PYLM_SERIALIZE_IMPL(Phase);
         virtual void construct(const Json& prop) override {
             PYBIND11_OVERLOAD(void, Phase, construct, prop);
         }
@@ -935,6 +941,7 @@ static void bind_medium(pybind11::module& m) {
         .def_readwrite("medium", &Medium::DistanceSample::medium);
 
     class Medium_Py final : public Medium {
+        PYLM_SERIALIZE_IMPL(Medium);
         virtual void construct(const Json& prop) override {
             PYBIND11_OVERLOAD(void, Medium, construct, prop);
         }
@@ -963,6 +970,7 @@ static void bind_medium(pybind11::module& m) {
 // Bind volume.h
 static void bind_volume(pybind11::module& m) {
     class Volume_Py final : public Volume {
+        PYLM_SERIALIZE_IMPL(Volume);
         virtual void construct(const Json& prop) override {
             PYBIND11_OVERLOAD(void, Volume, construct, prop);
         }
@@ -1001,6 +1009,7 @@ static void bind_volume(pybind11::module& m) {
 // Bind model.h
 static void bind_model(pybind11::module& m) {
     class Model_Py final : public Model {
+        PYLM_SERIALIZE_IMPL(Model);
         virtual void construct(const Json& prop) override {
             PYBIND11_OVERLOAD(void, Model, construct, prop);
         }
@@ -1039,6 +1048,7 @@ static void bind_camera(pybind11::module& m) {
         .def_readonly("weight", &Camera::PositionSample::weight);
 
     class Camera_Py final : public Camera {
+        PYLM_SERIALIZE_IMPL(Camera);
         virtual void construct(const Json& prop) override {
             PYBIND11_OVERLOAD(void, Camera, construct, prop);
         }
@@ -1130,6 +1140,7 @@ static void bind_light(pybind11::module& m) {
         .def_readwrite("weight", &Light::RaySample::weight);
 
     class Light_Py final : public Light {
+        PYLM_SERIALIZE_IMPL(Light);
         virtual void construct(const Json& prop) override {
             PYBIND11_OVERLOAD(void, Light, construct, prop);
         }
-- 
2.43.0


From 73284c013995492b4f24aea5f56ef597cf04f52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:54 +0000
Subject: [PATCH 56/60] fix: instances of Python classes made by create were
 never deallocated

---
 include/lm/pylm.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/lm/pylm.h b/include/lm/pylm.h
index 8ea2c74..665d91a 100644
--- a/include/lm/pylm.h
+++ b/include/lm/pylm.h
@@ -357,6 +357,10 @@ static pybind11::object cast_to_python_object(Component* inst) {
         // To avoid this, if the instance was created inside python, extract the underlying
         // python object and directly return it.
         auto instPy = std::any_cast<pybind11::object>(ownerRef);
+        // The lifetime is now managed by Python. Remove the reference of the instance to itself,
+        // otherwise the instance is never deallocated.
+        ownerRef.reset();
+        comp::detail::Access::release_func(inst) = nullptr;
         return instPy;
     }
     // Otherwise inst is C++ instance so return with standard pointer
@@ -383,13 +387,14 @@ static pybind11::object create_without_construct_wrap(const char* name, const ch
 */
 template <typename InterfaceT>
 static pybind11::object create_comp_wrap(const char* name, const char* loc, const Json& prop) {
-    auto inst = lm::comp::detail::create_comp(name);
+    // The instance is released if construct() throws
+    Component::Ptr<Component> inst(lm::comp::detail::create_comp(name));
     if (!inst) {
         return pybind11::object();
     }
-    lm::comp::detail::Access::loc(inst) = loc;
+    lm::comp::detail::Access::loc(inst.get()) = loc;
     inst->construct(prop);
-    return cast_to_python_object<InterfaceT>(inst);
+    return cast_to_python_object<InterfaceT>(inst.release());
 }
 
 /*!
-- 
2.43.0


From 26f14cc128e287d2455861366b0bce2605690776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:41 +0000
Subject: [PATCH 57/60] fix: objloader::tinyobjloader lost the first triangle
 after a change of the material

---
 .../objloader_tinyobjloader.cpp                  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp b/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
index 9483371..cd9c88e 100644
--- a/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
+++ b/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
@@ -126,14 +126,14 @@ public:
                     fs.clear();
                     prev_material_id = curr_material_id;
                 }
-                else {
-                    const auto& i1 = shape.mesh.indices[fi*3];
-                    const auto& i2 = shape.mesh.indices[fi*3+1];
-                    const auto& i3 = shape.mesh.indices[fi*3+2];
-                    fs.push_back({ i1.vertex_index, i1.texcoord_index, i1.normal_index });
-                    fs.push_back({ i2.vertex_index, i2.texcoord_index, i2.normal_index });
-                    fs.push_back({ i3.vertex_index, i3.texcoord_index, i3.normal_index });
-                }
+
+                // Add the face
+                const auto& i1 = shape.mesh.indices[fi*3];
+                const auto& i2 = shape.mesh.indices[fi*3+1];
+                const auto& i3 = shape.mesh.indices[fi*3+2];
+                fs.push_back({ i1.vertex_index, i1.texcoord_index, i1.normal_index });
+                fs.push_back({ i2.vertex_index, i2.texcoord_index, i2.normal_index });
+                fs.push_back({ i3.vertex_index, i3.texcoord_index, i3.normal_index });
             }
             if (!fs.empty()) {
                 if (!process_mesh(fs, our_mat_params[prev_material_id < 0 ? 0 : prev_material_id])) {
-- 
2.43.0


From 0b921b2359f546e95e5f8d4ec3fb2a41f274b2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:05 +0000
Subject: [PATCH 58/60] fix: objloader::tinyobjloader crashed by a shape
 without faces

---
 plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp b/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
index cd9c88e..a17e458 100644
--- a/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
+++ b/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
@@ -108,6 +108,10 @@ public:
             // because our framework doesn't support per-face material.
             fs.clear();
             const int num_faces = int(shape.mesh.num_face_vertices.size());
+            if (num_faces == 0) {
+                // Shape without faces, e.g., lines or points
+                continue;
+            }
             int prev_material_id = shape.mesh.material_ids[0];
             for (int fi = 0; fi < num_faces; fi++) {
                 // Assume the mesh is triangulated
-- 
2.43.0


From 6af1b100e9c63ff3926a3419137e66e209f3406b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:06 +0000
Subject: [PATCH 59/60] fix: objloader::tinyobjloader accepted faces with
 indices out of range

---
 .../objloader_tinyobjloader.cpp                  | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp b/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
index a17e458..7a66398 100644
--- a/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
+++ b/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
@@ -101,6 +101,18 @@ public:
             our_mat_params.push_back(std::move(p));
         }
 
+        // Check if the index is in the range of the array. Negative index means that the attribute is missing.
+        const auto valid_face = [&](const tinyobj::index_t& i1, const tinyobj::index_t& i2, const tinyobj::index_t& i3) {
+            for (const auto* i : { &i1, &i2, &i3 }) {
+                if (i->vertex_index < 0 || i->vertex_index >= int(geo.ps.size()) ||
+                    i->texcoord_index >= int(geo.ts.size()) || i->normal_index >= int(geo.ns.size()) ||
+                    (i->texcoord_index < 0) != (i1.texcoord_index < 0) || (i->normal_index < 0) != (i1.normal_index < 0)) {
+                    return false;
+                }
+            }
+            return true;
+        };
+
         // Process shapes
         OBJMeshFace fs;
         for (const auto& shape : shapes) {
@@ -135,6 +147,10 @@ public:
                 const auto& i1 = shape.mesh.indices[fi*3];
                 const auto& i2 = shape.mesh.indices[fi*3+1];
                 const auto& i3 = shape.mesh.indices[fi*3+2];
+                if (!valid_face(i1, i2, i3)) {
+                    LM_ERROR("Invalid face index");
+                    return false;
+                }
                 fs.push_back({ i1.vertex_index, i1.texcoord_index, i1.normal_index });
                 fs.push_back({ i2.vertex_index, i2.texcoord_index, i2.normal_index });
                 fs.push_back({ i3.vertex_index, i3.texcoord_index, i3.normal_index });
-- 
2.43.0


From 48941aab9adca53b7ad53fe7256c6c2971d443bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:14 +0000
Subject: [PATCH 60/60] fix: objloader::tinyobjloader left the default material
 uninitialised

---
 plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp b/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
index 7a66398..7fa354d 100644
--- a/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
+++ b/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
@@ -91,7 +91,7 @@ public:
 
         // Default material if OBJ has no corresponding MTL file
         if (materials.empty()) {
-            MTLMatParams p;
+            MTLMatParams p{};
             p.name = "default";
             p.illum = -1;
             p.Kd = Vec3(1);
-- 
2.43.0

