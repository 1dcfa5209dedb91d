From f8ac41521c84f000d1bd7e30528dba80b4a7a1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:12 +0000
Subject: [PATCH 01/68] fix: report errors from parsing material extensions

---
 src/fastgltf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 4591179..be1e3b3 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3372,7 +3372,9 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
 
         dom::object extensionsObject;
         if (auto extensionError = materialObject["extensions"].get_object().get(extensionsObject); extensionError == SUCCESS) {
-			parseMaterialExtensions(extensionsObject, material);
+			if (auto error = parseMaterialExtensions(extensionsObject, material); error != Error::None) {
+				return error;
+			}
         } else if (extensionError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
             return Error::InvalidJson;
         }
-- 
2.43.0


From 92a3f025591d84a6eba3d17b0449c71874088e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:24 +0000
Subject: [PATCH 02/68] fix: do not carry texture info fields over to the next
 texture of a material

---
 src/fastgltf.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index be1e3b3..1e7d459 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3146,12 +3146,14 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 					return error;
 				}
 
+				textureInfo = {};
 				if (auto error = parseTextureInfo(occlusionRoughnessMetallic, "roughnessMetallicOcclusionTexture", &textureInfo, config.extensions); error == Error::None) FASTGLTF_LIKELY {
 					packedTextures->roughnessMetallicOcclusionTexture = std::move(textureInfo);
 				} else if (error != Error::MissingField) {
 					return error;
 				}
 
+				textureInfo = {};
 				if (auto error = parseTextureInfo(occlusionRoughnessMetallic, "normalTexture", &textureInfo, config.extensions); error == Error::None) FASTGLTF_LIKELY {
 					packedTextures->normalTexture = std::move(textureInfo);
 				} else if (error != Error::MissingField) {
@@ -3327,8 +3329,9 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
                 return error;
             }
 
-            if (auto error = parseTextureInfo(pbrMetallicRoughness, "metallicRoughnessTexture", &textureInfo, config.extensions); error == Error::None) FASTGLTF_LIKELY {
-                pbr.metallicRoughnessTexture = std::move(textureInfo);
+            TextureInfo metallicRoughnessTextureInfo;
+            if (auto error = parseTextureInfo(pbrMetallicRoughness, "metallicRoughnessTexture", &metallicRoughnessTextureInfo, config.extensions); error == Error::None) FASTGLTF_LIKELY {
+                pbr.metallicRoughnessTexture = std::move(metallicRoughnessTextureInfo);
             } else if (error != Error::MissingField) {
                 return error;
             }
-- 
2.43.0


From 9ec52e85871e84490338d70780bd50147884bc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:03 +0000
Subject: [PATCH 03/68] fix: reject wrongly typed texture transform and
 metallic-roughness properties

---
 src/fastgltf.cpp | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 1e7d459..59dd615 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -346,23 +346,29 @@ namespace fastgltf {
 		}
 
 		dom::object extensionsObject;
-		if (child["extensions"].get_object().get(extensionsObject) == SUCCESS) FASTGLTF_LIKELY {
+		if (const auto extensionsError = child["extensions"].get_object().get(extensionsObject); extensionsError == SUCCESS) FASTGLTF_LIKELY {
 			dom::object textureTransform;
-			if (hasBit(extensions, Extensions::KHR_texture_transform) && extensionsObject[extensions::KHR_texture_transform].get_object().get(textureTransform) == SUCCESS) FASTGLTF_LIKELY {
+			const auto transformError = hasBit(extensions, Extensions::KHR_texture_transform)
+				? extensionsObject[extensions::KHR_texture_transform].get_object().get(textureTransform) : NO_SUCH_FIELD;
+			if (transformError == SUCCESS) FASTGLTF_LIKELY {
 				auto transform = std::make_unique<TextureTransform>();
 				transform->rotation = 0.0F;
 
-				if (textureTransform["texCoord"].get_uint64().get(index) == SUCCESS) FASTGLTF_LIKELY {
+				if (const auto error = textureTransform["texCoord"].get_uint64().get(index); error == SUCCESS) FASTGLTF_LIKELY {
 					transform->texCoordIndex = index;
+				} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
 				}
 
 				double rotation = 0.0F;
-				if (textureTransform["rotation"].get_double().get(rotation) == SUCCESS) FASTGLTF_LIKELY {
+				if (const auto error = textureTransform["rotation"].get_double().get(rotation); error == SUCCESS) FASTGLTF_LIKELY {
 					transform->rotation = static_cast<num>(rotation);
+				} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
 				}
 
 				dom::array array;
-				if (textureTransform["offset"].get_array().get(array) == SUCCESS) FASTGLTF_LIKELY {
+				if (const auto error = textureTransform["offset"].get_array().get(array); error == SUCCESS) FASTGLTF_LIKELY {
 					for (auto i = 0U; i < 2; ++i) {
 						double val;
 						if (array.at(i).get_double().get(val) != SUCCESS) FASTGLTF_UNLIKELY {
@@ -370,9 +376,11 @@ namespace fastgltf {
 						}
 						transform->uvOffset[i] = static_cast<num>(val);
 					}
+				} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
 				}
 
-				if (textureTransform["scale"].get_array().get(array) == SUCCESS) FASTGLTF_LIKELY {
+				if (const auto error = textureTransform["scale"].get_array().get(array); error == SUCCESS) FASTGLTF_LIKELY {
 					for (auto i = 0U; i < 2; ++i) {
 						double val;
 						if (array.at(i).get_double().get(val) != SUCCESS) FASTGLTF_UNLIKELY {
@@ -380,10 +388,16 @@ namespace fastgltf {
 						}
 						transform->uvScale[i] = static_cast<num>(val);
 					}
+				} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
 				}
 
 				info->transform = std::move(transform);
+			} else if (transformError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+				return Error::InvalidGltf;
 			}
+		} else if (extensionsError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
 		}
 
 		return Error::None;
@@ -3296,11 +3310,11 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
 	    }
 
         dom::object pbrMetallicRoughness;
-        if (materialObject["pbrMetallicRoughness"].get_object().get(pbrMetallicRoughness) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto pbrError = materialObject["pbrMetallicRoughness"].get_object().get(pbrMetallicRoughness); pbrError == SUCCESS) FASTGLTF_LIKELY {
             PBRData pbr = {};
 
             dom::array baseColorFactor;
-            if (pbrMetallicRoughness["baseColorFactor"].get_array().get(baseColorFactor) == SUCCESS) FASTGLTF_LIKELY {
+            if (auto error = pbrMetallicRoughness["baseColorFactor"].get_array().get(baseColorFactor); error == SUCCESS) FASTGLTF_LIKELY {
                 for (auto i = 0U; i < 4; ++i) {
                     double val;
                     if (baseColorFactor.at(i).get_double().get(val) != SUCCESS) FASTGLTF_UNLIKELY {
@@ -3308,6 +3322,8 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
                     }
                     pbr.baseColorFactor[i] = static_cast<num>(val);
                 }
+            } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
             }
 
             double factor;
@@ -3337,6 +3353,8 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
             }
 
             material.pbrData = std::move(pbr);
+        } else if (pbrError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         std::string_view alphaMode;
-- 
2.43.0


From 35a5896fd31f56c1606b38bab2f9d389f371a294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:21 +0000
Subject: [PATCH 04/68] fix: reject names of the wrong JSON type

---
 src/fastgltf.cpp | 52 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 59dd615..01ce727 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1841,8 +1841,10 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
 		}
 
 		std::string_view name;
-        if (accessorObject["name"].get_string().get(name) == SUCCESS) {
+        if (auto nameError = accessorObject["name"].get_string().get(name); nameError == SUCCESS) {
 	        accessor.name = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(accessor.name), resourceAllocator.get(), name);
+        } else if (nameError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
 	    asset.accessors.emplace_back(std::move(accessor));
@@ -1972,8 +1974,10 @@ fg::Error fg::Parser::parseAnimations(simdjson::dom::array& animations, Asset& a
 
 
 		std::string_view name;
-        if (animationObject["name"].get_string().get(name) == SUCCESS) {
+        if (auto nameError = animationObject["name"].get_string().get(name); nameError == SUCCESS) {
 	        animation.name = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(animation.name), resourceAllocator.get(), name);
+        } else if (nameError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
 	    asset.animations.emplace_back(std::move(animation));
@@ -2068,8 +2072,10 @@ fg::Error fg::Parser::parseBuffers(simdjson::dom::array& buffers, Asset& asset)
 		}
 
 		std::string_view name;
-        if (bufferObject["name"].get_string().get(name) == SUCCESS) {
+        if (auto nameError = bufferObject["name"].get_string().get(name); nameError == SUCCESS) {
 	        buffer.name = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(buffer.name), resourceAllocator.get(), name);
+        } else if (nameError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         ++bufferIndex;
@@ -2240,8 +2246,10 @@ fg::Error fg::Parser::parseCameras(simdjson::dom::array& cameras, Asset& asset)
         }
 
         std::string_view name;
-        if (cameraObject["name"].get_string().get(name) == SUCCESS) {
+        if (auto nameError = cameraObject["name"].get_string().get(name); nameError == SUCCESS) {
 	        camera.name = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(camera.name), resourceAllocator.get(), name);
+        } else if (nameError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         std::string_view type;
@@ -2532,8 +2540,10 @@ fg::Error fg::Parser::parseImages(simdjson::dom::array& images, Asset& asset) {
 
 		// name is optional.
         std::string_view name;
-        if (imageObject["name"].get_string().get(name) == SUCCESS) {
+        if (auto nameError = imageObject["name"].get_string().get(name); nameError == SUCCESS) {
 	        image.name = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(image.name), resourceAllocator.get(), name);
+        } else if (nameError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         asset.images.emplace_back(std::move(image));
@@ -2633,8 +2643,10 @@ fg::Error fg::Parser::parseLights(const simdjson::dom::array& lights, Asset& ass
         }
 
 		std::string_view name;
-        if (lightObject["name"].get_string().get(name) == SUCCESS) {
+        if (auto nameError = lightObject["name"].get_string().get(name); nameError == SUCCESS) {
 	        light.name = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(light.name), resourceAllocator.get(), name);
+        } else if (nameError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         asset.lights.emplace_back(std::move(light));
@@ -3387,8 +3399,10 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
         }
 
         std::string_view name;
-        if (materialObject["name"].get_string().get(name) == SUCCESS) {
+        if (auto nameError = materialObject["name"].get_string().get(name); nameError == SUCCESS) {
 	        material.name = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(material.name), resourceAllocator.get(), name);
+        } else if (nameError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         dom::object extensionsObject;
@@ -3603,8 +3617,10 @@ fg::Error fg::Parser::parseMeshes(simdjson::dom::array& meshes, Asset& asset) {
 		}
 
 		std::string_view name;
-        if (meshObject["name"].get_string().get(name) == SUCCESS) {
+        if (auto nameError = meshObject["name"].get_string().get(name); nameError == SUCCESS) {
 	        mesh.name = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(mesh.name), resourceAllocator.get(), name);
+        } else if (nameError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         asset.meshes.emplace_back(std::move(mesh));
@@ -3849,8 +3865,10 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
 		}
 
         std::string_view name;
-        if (nodeObject["name"].get_string().get(name) == SUCCESS) {
+        if (auto nameError = nodeObject["name"].get_string().get(name); nameError == SUCCESS) {
 	        node.name = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(node.name), resourceAllocator.get(), name);
+        } else if (nameError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         asset.nodes.emplace_back(std::move(node));
@@ -3903,8 +3921,10 @@ fg::Error fg::Parser::parseSamplers(const simdjson::dom::array& samplers, Asset&
 		}
 
 		std::string_view name;
-		if (samplerObject["name"].get_string().get(name) == SUCCESS) {
+		if (auto nameError = samplerObject["name"].get_string().get(name); nameError == SUCCESS) {
 			sampler.name = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(sampler.name), resourceAllocator.get(), name);
+		} else if (nameError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+		    return Error::InvalidGltf;
 		}
 
 		asset.samplers.emplace_back(std::move(sampler));
@@ -3926,8 +3946,10 @@ fg::Error fg::Parser::parseScenes(const simdjson::dom::array& scenes, Asset& ass
         }
 
         std::string_view name;
-        if (sceneObject["name"].get_string().get(name) == SUCCESS) {
+        if (auto nameError = sceneObject["name"].get_string().get(name); nameError == SUCCESS) {
 	        scene.name = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(scene.name), resourceAllocator.get(), name);
+        } else if (nameError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
 		if (config.extrasCallback != nullptr) {
@@ -4009,8 +4031,10 @@ fg::Error fg::Parser::parseSkins(const simdjson::dom::array& skins, Asset& asset
 		}
 
 		std::string_view name;
-        if (skinObject["name"].get_string().get(name) == SUCCESS) {
+        if (auto nameError = skinObject["name"].get_string().get(name); nameError == SUCCESS) {
 	        skin.name = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(skin.name), resourceAllocator.get(), name);
+        } else if (nameError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
         asset.skins.emplace_back(std::move(skin));
     }
@@ -4064,8 +4088,10 @@ fg::Error fg::Parser::parseTextures(const simdjson::dom::array& textures, Asset&
 		}
 
 		std::string_view name;
-        if (textureObject["name"].get_string().get(name) == SUCCESS) {
+        if (auto nameError = textureObject["name"].get_string().get(name); nameError == SUCCESS) {
 			texture.name = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(texture.name), resourceAllocator.get(), name);
+        } else if (nameError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         asset.textures.emplace_back(std::move(texture));
-- 
2.43.0


From f7c3f4b9d1ca8fef8746b9a6d1bd4aa2ab82b1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:08 +0000
Subject: [PATCH 05/68] fix: reject wrongly typed optional properties

---
 src/fastgltf.cpp | 74 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 56 insertions(+), 18 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 01ce727..adc42aa 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1498,19 +1498,24 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 		info.gltfVersion = std::string { version };
 
 		std::string_view copyright;
-		if (assetInfo["copyright"].get_string().get(copyright) == SUCCESS) FASTGLTF_LIKELY {
+		if (auto error = assetInfo["copyright"].get_string().get(copyright); error == SUCCESS) FASTGLTF_LIKELY {
 			info.copyright = std::string { copyright };
+		} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+			return Error::InvalidJson;
 		}
 
 		std::string_view generator;
-		if (assetInfo["generator"].get_string().get(generator) == SUCCESS) FASTGLTF_LIKELY {
+		if (auto error = assetInfo["generator"].get_string().get(generator); error == SUCCESS) FASTGLTF_LIKELY {
 			info.generator = std::string { generator };
+		} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+			return Error::InvalidJson;
 		}
 
 		asset.assetInfo = std::move(info);
 	}
 
-	if (dom::array extensionsRequired; root["extensionsRequired"].get_array().get(extensionsRequired) == SUCCESS) FASTGLTF_LIKELY {
+	dom::array extensionsRequired;
+	if (auto error = root["extensionsRequired"].get_array().get(extensionsRequired); error == SUCCESS) FASTGLTF_LIKELY {
 		for (auto extension : extensionsRequired) {
 			std::string_view string;
 			if (extension.get_string().get(string) != SUCCESS) FASTGLTF_UNLIKELY {
@@ -1535,6 +1540,8 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 			FASTGLTF_STD_PMR_NS::string FASTGLTF_CONSTRUCT_PMR_RESOURCE(requiredExtension, resourceAllocator.get(), string);
 			asset.extensionsRequired.emplace_back(std::move(requiredExtension));
 		}
+	} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+		return Error::InvalidGltf;
 	}
 
 	Category readCategories = Category::None;
@@ -1674,8 +1681,10 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
 
 
         std::uint64_t bufferView;
-        if (accessorObject["bufferView"].get_uint64().get(bufferView) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto error = accessorObject["bufferView"].get_uint64().get(bufferView); error == SUCCESS) FASTGLTF_LIKELY {
             accessor.bufferViewIndex = static_cast<std::size_t>(bufferView);
+        } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         // byteOffset is optional, but defaults to 0
@@ -1689,7 +1698,7 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
 		// Type of min and max should always be the same.
 		auto parseMinMax = [&](const std::string_view key, std::optional<AccessorBoundsArray>& ref) -> Error {
 			dom::array elements;
-			if (accessorObject[key].get_array().get(elements) == SUCCESS) FASTGLTF_LIKELY {
+			if (auto error = accessorObject[key].get_array().get(elements); error == SUCCESS) FASTGLTF_LIKELY {
 				const auto num = getNumComponents(accessor.type);
 
 				if (accessor.componentType == ComponentType::Float || accessor.componentType == ComponentType::Double) {
@@ -1761,6 +1770,8 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
 				if (idx < num) FASTGLTF_UNLIKELY {
 					return Error::InvalidGltf;
 				}
+			} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+				return Error::InvalidGltf;
 			}
 			return Error::None;
 		};
@@ -1782,7 +1793,7 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
 		}
 
         dom::object sparseAccessorObject;
-        if (accessorObject["sparse"].get_object().get(sparseAccessorObject) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto sparseError = accessorObject["sparse"].get_object().get(sparseAccessorObject); sparseError == SUCCESS) FASTGLTF_LIKELY {
             SparseAccessor sparse = {};
             std::uint64_t value;
             dom::object child;
@@ -1829,6 +1840,8 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
             }
 
             accessor.sparse = sparse;
+        } else if (sparseError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
 		if (config.extrasCallback != nullptr) {
@@ -2021,7 +2034,8 @@ fg::Error fg::Parser::parseBuffers(simdjson::dom::array& buffers, Asset& asset)
         // When parsing GLB, there's a buffer object that will point to the BUF chunk in the
         // file. Otherwise, data must be specified in the "uri" field.
         std::string_view uriString;
-        if (bufferObject["uri"].get_string().get(uriString) == SUCCESS) FASTGLTF_LIKELY {
+        auto uriError = bufferObject["uri"].get_string().get(uriString);
+        if (uriError == SUCCESS) FASTGLTF_LIKELY {
 			URIView uriView(uriString);
 
             if (!uriView.valid()) {
@@ -2048,6 +2062,8 @@ fg::Error fg::Parser::parseBuffers(simdjson::dom::array& buffers, Asset& asset)
                 filePath.uri = uriView;
                 buffer.data = std::move(filePath);
             }
+        } else if (uriError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         } else if (bufferIndex == 0 && !std::holds_alternative<std::monostate>(glbBuffer)) {
             buffer.data = std::move(glbBuffer);
         } else if (meshoptCompressionRequired) {
@@ -2133,9 +2149,11 @@ fg::Error fg::Parser::parseBufferViews(const simdjson::dom::array& bufferViews,
         }
 
         dom::object extensionObject;
-        if (bufferViewObject["extensions"].get_object().get(extensionObject) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto extensionError = bufferViewObject["extensions"].get_object().get(extensionObject); extensionError == SUCCESS) FASTGLTF_LIKELY {
             dom::object meshoptCompression;
-            if (hasBit(config.extensions, Extensions::EXT_meshopt_compression) && extensionObject[extensions::EXT_meshopt_compression].get_object().get(meshoptCompression) == SUCCESS) FASTGLTF_LIKELY {
+            const auto meshoptError = hasBit(config.extensions, Extensions::EXT_meshopt_compression)
+                ? extensionObject[extensions::EXT_meshopt_compression].get_object().get(meshoptCompression) : NO_SUCH_FIELD;
+            if (meshoptError == SUCCESS) FASTGLTF_LIKELY {
                 auto compression = std::make_unique<CompressedBufferView>();
 
                 if (auto error = meshoptCompression["buffer"].get_uint64().get(number); error != SUCCESS) FASTGLTF_UNLIKELY {
@@ -2216,7 +2234,11 @@ fg::Error fg::Parser::parseBufferViews(const simdjson::dom::array& bufferViews,
                 }
 
                 view.meshoptCompression = std::move(compression);
+            } else if (meshoptError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
             }
+        } else if (extensionError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
 		if (config.extrasCallback != nullptr) {
@@ -2466,7 +2488,7 @@ fg::Error fg::Parser::parseImages(simdjson::dom::array& images, Asset& asset) {
         }
 
         std::string_view uriString;
-        if (imageObject["uri"].get_string().get(uriString) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto uriError = imageObject["uri"].get_string().get(uriString); uriError == SUCCESS) FASTGLTF_LIKELY {
             if (imageObject["bufferView"].error() == SUCCESS) FASTGLTF_LIKELY {
                 // If uri is declared, bufferView cannot be declared.
                 return Error::InvalidGltf;
@@ -2499,7 +2521,7 @@ fg::Error fg::Parser::parseImages(simdjson::dom::array& images, Asset& asset) {
             }
 
             std::string_view mimeType;
-            if (imageObject["mimeType"].get_string().get(mimeType) == SUCCESS) FASTGLTF_LIKELY {
+            if (auto mimeTypeError = imageObject["mimeType"].get_string().get(mimeType); mimeTypeError == SUCCESS) FASTGLTF_LIKELY {
                 std::visit([&](auto& arg) {
                     using T = std::decay_t<decltype(arg)>;
 
@@ -2508,11 +2530,15 @@ fg::Error fg::Parser::parseImages(simdjson::dom::array& images, Asset& asset) {
                         arg.mimeType = getMimeTypeFromString(mimeType);
                     }
                 }, image.data);
+            } else if (mimeTypeError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
             }
+        } else if (uriError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         std::uint64_t bufferViewIndex;
-        if (imageObject["bufferView"].get_uint64().get(bufferViewIndex) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto bufferViewError = imageObject["bufferView"].get_uint64().get(bufferViewIndex); bufferViewError == SUCCESS) FASTGLTF_LIKELY {
             std::string_view mimeType;
             if (imageObject["mimeType"].get_string().get(mimeType) != SUCCESS) FASTGLTF_UNLIKELY {
                 // If bufferView is defined, mimeType needs to also be defined.
@@ -2523,6 +2549,8 @@ fg::Error fg::Parser::parseImages(simdjson::dom::array& images, Asset& asset) {
                 static_cast<std::size_t>(bufferViewIndex),
                 getMimeTypeFromString(mimeType),
             };
+        } else if (bufferViewError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         if (std::holds_alternative<std::monostate>(image.data)) {
@@ -2631,15 +2659,19 @@ fg::Error fg::Parser::parseLights(const simdjson::dom::array& lights, Asset& ass
         }
 
         double intensity;
-        if (lightObject["intensity"].get_double().get(intensity) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto error = lightObject["intensity"].get_double().get(intensity); error == SUCCESS) FASTGLTF_LIKELY {
             light.intensity = static_cast<num>(intensity);
-        } else {
+        } else if (error == NO_SUCH_FIELD) {
             light.intensity = 1.0f;
+        } else {
+            return Error::InvalidGltf;
         }
 
         double range;
-        if (lightObject["range"].get_double().get(range) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto error = lightObject["range"].get_double().get(range); error == SUCCESS) FASTGLTF_LIKELY {
             light.range = static_cast<num>(range);
+        } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
 		std::string_view name;
@@ -3547,7 +3579,7 @@ fg::Error fg::Parser::parseMeshes(simdjson::dom::array& meshes, Asset& asset) {
 			}
 
 			dom::array targets;
-			if (primitiveObject["targets"].get_array().get(targets) == SUCCESS) FASTGLTF_LIKELY {
+			if (auto targetsError = primitiveObject["targets"].get_array().get(targets); targetsError == SUCCESS) FASTGLTF_LIKELY {
 				primitive.targets = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(primitive.targets), resourceAllocator.get(), 0);
 				primitive.targets.reserve(targets.size());
 				for (auto targetValue : targets) {
@@ -3559,6 +3591,8 @@ fg::Error fg::Parser::parseMeshes(simdjson::dom::array& meshes, Asset& asset) {
 						return attributesError;
 					}
 				}
+			} else if (targetsError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+				return Error::InvalidGltf;
 			}
 
 			std::uint64_t value;
@@ -3775,7 +3809,7 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
         }
 
         dom::object extensionsObject;
-        if (nodeObject["extensions"].get_object().get(extensionsObject) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto extensionsError = nodeObject["extensions"].get_object().get(extensionsObject); extensionsError == SUCCESS) FASTGLTF_LIKELY {
 			if (hasBit(config.extensions, Extensions::KHR_lights_punctual)) {
 				dom::object lightsObject;
 				if (extensionsObject[extensions::KHR_lights_punctual].get_object().get(lightsObject) == SUCCESS) FASTGLTF_LIKELY {
@@ -3853,6 +3887,8 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
         			return Error::InvalidGltf;
         		}
         	}
+        } else if (extensionsError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
 		if (config.extrasCallback != nullptr) {
@@ -4393,7 +4429,7 @@ fg::Error fg::Parser::parsePhysicsJoints(const simdjson::dom::array& physicsJoin
 		}
 
 		dom::array limitsArray;
-		if (physicsJointValue["limits"].get_array().get(limitsArray) == SUCCESS) {
+		if (auto limitsError = physicsJointValue["limits"].get_array().get(limitsArray); limitsError == SUCCESS) {
 			physicsJoint.limits.reserve(limitsArray.size());
             for (auto limitValue : limitsArray) {
 				auto& limit = physicsJoint.limits.emplace_back();
@@ -4470,6 +4506,8 @@ fg::Error fg::Parser::parsePhysicsJoints(const simdjson::dom::array& physicsJoin
 					return Error::InvalidGltf;
 				}
             }
+		} else if (limitsError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
 		}
 
 		dom::array driveArray;
-- 
2.43.0


From d2a9740f883c604b76eea6420bdfd13ffc60a2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:08 +0000
Subject: [PATCH 06/68] fix: load node weights from the weights array

---
 src/fastgltf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index adc42aa..8e3f477 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3709,7 +3709,7 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
 
         auto weightsError = getJsonArray(nodeObject, "weights", &array);
         if (weightsError != Error::MissingField) {
-            if (weightsError != Error::None) {
+            if (weightsError == Error::None) {
 	            node.weights = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(node.weights), resourceAllocator.get(), 0);
                 node.weights.reserve(array.size());
                 for (auto weightValue : array) {
@@ -3720,7 +3720,7 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
                     node.weights.emplace_back(static_cast<num>(val));
                 }
             } else {
-                return Error::InvalidGltf;
+                return weightsError;
             }
         }
 
-- 
2.43.0


From 663213726faa11ef76da3ee2c10699d5355239fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:08 +0000
Subject: [PATCH 07/68] fix: check the right error when looking for
 KHR_lights_punctual on a node

---
 src/fastgltf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 8e3f477..94cc2b2 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3812,14 +3812,14 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
         if (auto extensionsError = nodeObject["extensions"].get_object().get(extensionsObject); extensionsError == SUCCESS) FASTGLTF_LIKELY {
 			if (hasBit(config.extensions, Extensions::KHR_lights_punctual)) {
 				dom::object lightsObject;
-				if (extensionsObject[extensions::KHR_lights_punctual].get_object().get(lightsObject) == SUCCESS) FASTGLTF_LIKELY {
+				if (auto lightsError = extensionsObject[extensions::KHR_lights_punctual].get_object().get(lightsObject); lightsError == SUCCESS) FASTGLTF_LIKELY {
 					std::uint64_t light;
 					if (auto lightError = lightsObject["light"].get_uint64().get(light); lightError == SUCCESS) FASTGLTF_LIKELY {
 						node.lightIndex = static_cast<std::size_t>(light);
 					} else {
 						return lightError == NO_SUCH_FIELD || lightError == INCORRECT_TYPE ? Error::InvalidGltf : Error::InvalidJson;
 					}
-				} else if (error != NO_SUCH_FIELD) {
+				} else if (lightsError != NO_SUCH_FIELD) {
 					return Error::InvalidGltf;
 				}
 			}
-- 
2.43.0


From f33b70ceb0517c462728777d395ce491a50c9bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:38 +0000
Subject: [PATCH 08/68] fix: reject a wrongly typed animation interpolation

---
 src/fastgltf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 94cc2b2..affbbf1 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1959,8 +1959,10 @@ fg::Error fg::Parser::parseAnimations(simdjson::dom::array& animations, Asset& a
             sampler.outputAccessor = static_cast<std::size_t>(output);
 
             std::string_view interpolation;
-            if (samplerObject["interpolation"].get_string().get(interpolation) != SUCCESS) FASTGLTF_UNLIKELY {
+            if (auto interpolationError = samplerObject["interpolation"].get_string().get(interpolation); interpolationError == NO_SUCH_FIELD) {
                 sampler.interpolation = AnimationInterpolation::Linear;
+            } else if (interpolationError != SUCCESS) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
             } else {
                 if (interpolation == "LINEAR") {
                     sampler.interpolation = AnimationInterpolation::Linear;
-- 
2.43.0


From 220f83dfb6308e78cd4d21347ff71c07129ff76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:38 +0000
Subject: [PATCH 09/68] fix: keep scenes that have no nodes

---
 src/fastgltf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index affbbf1..3788342 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4013,11 +4013,11 @@ fg::Error fg::Parser::parseScenes(const simdjson::dom::array& scenes, Asset& ass
 
                 scene.nodeIndices.emplace_back(static_cast<std::size_t>(index));
             }
-
-            asset.scenes.emplace_back(std::move(scene));
         } else if (nodeError != Error::MissingField) {
             return nodeError;
         }
+
+        asset.scenes.emplace_back(std::move(scene));
     }
 
 	return Error::None;
-- 
2.43.0


From c628e40e4d0e08e22fb51cc08db266e54d176048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:38 +0000
Subject: [PATCH 10/68] fix: reject material variant indices that overflow the
 mapping size

---
 src/fastgltf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 3788342..6ff0ad7 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3502,6 +3502,9 @@ fastgltf::Error fg::Parser::parsePrimitiveExtensions(const simdjson::dom::object
 						if (variant.get_uint64().get(variantIndex) != SUCCESS) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
 						}
+						if (variantIndex >= primitive.mappings.max_size()) FASTGLTF_UNLIKELY {
+							return Error::InvalidGltf;
+						}
 
 						primitive.mappings.resize(max(primitive.mappings.size(),
 													  static_cast<std::size_t>(variantIndex + 1)));
-- 
2.43.0


From 62f142d9d124b9926478766ea7cf3973e7452caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:42 +0000
Subject: [PATCH 11/68] fix: reject numbers that are no enumerator of mode,
 target, filter or wrap

---
 src/fastgltf.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 6ff0ad7..a4ea0d1 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -299,6 +299,15 @@ namespace fastgltf {
 		return Error::InvalidJson;
 	}
 
+	[[nodiscard]] constexpr bool isValidFilter(std::uint64_t filter) noexcept {
+		return filter == to_underlying(Filter::Nearest) || filter == to_underlying(Filter::Linear)
+			|| (filter >= to_underlying(Filter::NearestMipMapNearest) && filter <= to_underlying(Filter::LinearMipMapLinear));
+	}
+
+	[[nodiscard]] constexpr bool isValidWrap(std::uint64_t wrap) noexcept {
+		return wrap == to_underlying(Wrap::ClampToEdge) || wrap == to_underlying(Wrap::MirroredRepeat) || wrap == to_underlying(Wrap::Repeat);
+	}
+
 	enum class TextureInfoType : std::uint_fast8_t {
 		Standard = 0,
 		NormalTexture = 1,
@@ -2138,6 +2147,9 @@ fg::Error fg::Parser::parseBufferViews(const simdjson::dom::array& bufferViews,
         }
 
         if (auto error = bufferViewObject["target"].get_uint64().get(number); error == SUCCESS) FASTGLTF_LIKELY {
+            if (number != to_underlying(BufferTarget::ArrayBuffer) && number != to_underlying(BufferTarget::ElementArrayBuffer)) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             view.target = static_cast<BufferTarget>(number);
         } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
             return Error::InvalidJson;
@@ -3602,6 +3614,9 @@ fg::Error fg::Parser::parseMeshes(simdjson::dom::array& meshes, Asset& asset) {
 
 			std::uint64_t value;
 			if (auto error = primitiveObject["mode"].get_uint64().get(value); error == SUCCESS) FASTGLTF_LIKELY {
+				if (value > to_underlying(PrimitiveType::TriangleFan)) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
+				}
 				primitive.type = static_cast<PrimitiveType>(value);
 			} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 				return Error::InvalidGltf;
@@ -3931,22 +3946,34 @@ fg::Error fg::Parser::parseSamplers(const simdjson::dom::array& samplers, Asset&
         }
 
         if (auto error = samplerObject["magFilter"].get_uint64().get(number); error == SUCCESS) FASTGLTF_LIKELY {
+            if (!isValidFilter(number)) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             sampler.magFilter = static_cast<Filter>(number);
         } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 			return Error::InvalidGltf;
 		}
         if (auto error = samplerObject["minFilter"].get_uint64().get(number); error == SUCCESS) FASTGLTF_LIKELY {
+            if (!isValidFilter(number)) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             sampler.minFilter = static_cast<Filter>(number);
         } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 			return Error::InvalidGltf;
 		}
 
         if (auto error = samplerObject["wrapS"].get_uint64().get(number); error == SUCCESS) FASTGLTF_LIKELY {
+            if (!isValidWrap(number)) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             sampler.wrapS = static_cast<Wrap>(number);
         } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
             return Error::InvalidGltf;
         }
         if (auto error = samplerObject["wrapT"].get_uint64().get(number); error == SUCCESS) FASTGLTF_LIKELY {
+            if (!isValidWrap(number)) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             sampler.wrapT = static_cast<Wrap>(number);
         } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
             return Error::InvalidGltf;
-- 
2.43.0


From 961485c0bfec744c183275951aa385f36d69a0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:42 +0000
Subject: [PATCH 12/68] fix: check the position accessor before generating mesh
 indices

---
 src/fastgltf.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index a4ea0d1..6929ed7 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -892,17 +892,24 @@ fg::Error fg::Parser::generateMeshIndices(fastgltf::Asset& asset) const {
 			if (positionAttribute == primitive.attributes.end()) {
 				return Error::InvalidGltf;
 			}
+			if (positionAttribute->accessorIndex >= asset.accessors.size()) FASTGLTF_UNLIKELY {
+				return Error::InvalidGltf;
+			}
 			auto positionCount = asset.accessors[positionAttribute->accessorIndex].count;
+			// The generated indices have to be addressable.
+			if (positionCount > std::numeric_limits<std::size_t>::max() / (3 * sizeof(std::uint32_t))) FASTGLTF_UNLIKELY {
+				return Error::InvalidGltf;
+			}
 
 			auto primitiveCount = [&]() -> std::size_t {
 				switch (primitive.type) {
 					case PrimitiveType::Points: return positionCount;
 					case PrimitiveType::Lines: return positionCount / 2;
 					case PrimitiveType::LineLoop:
-					case PrimitiveType::LineStrip: return max<std::size_t>(0, positionCount - 1);
+					case PrimitiveType::LineStrip: return max<std::size_t>(1, positionCount) - 1;
 					case PrimitiveType::Triangles: return positionCount / 3;
-					case PrimitiveType::TriangleStrip: return max<std::size_t>(0U, positionCount - 2);
-					case PrimitiveType::TriangleFan: return max<std::size_t>(0U, positionCount - 2);
+					case PrimitiveType::TriangleStrip: return max<std::size_t>(2, positionCount) - 2;
+					case PrimitiveType::TriangleFan: return max<std::size_t>(2, positionCount) - 2;
 					default: FASTGLTF_UNREACHABLE
 				}
 			}();
-- 
2.43.0


From dad44771f7b184524b60499661b2af65af1b46a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:58 +0000
Subject: [PATCH 13/68] fix: reject an empty version string

---
 src/fastgltf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 6929ed7..9b31792 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1506,6 +1506,9 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 			return Error::InvalidOrMissingAssetField;
 		}
 
+		if (version.empty()) FASTGLTF_UNLIKELY {
+			return Error::InvalidOrMissingAssetField;
+		}
 		const auto major = static_cast<std::uint32_t>(version.substr(0, 1)[0] - '0');
 		// std::uint32_t minor = version.substr(2, 3)[0] - '0';
 		if (major != 2U) {
-- 
2.43.0


From a7f0f2523dfe9ebeceaffb09478964fe42c667bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:06 +0000
Subject: [PATCH 14/68] fix: reject a node matrix of the wrong JSON type

---
 src/fastgltf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 9b31792..5467966 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3836,6 +3836,8 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
             }
 
             node.transform = trs;
+        } else {
+            return Error::InvalidGltf;
         }
 
         dom::object extensionsObject;
-- 
2.43.0


From b4743fab126efe32434d0792cff903e69ed45c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:38 +0000
Subject: [PATCH 15/68] fix: reject a diffuse transmission color factor of the
 wrong JSON type

---
 src/fastgltf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 5467966..c7eb54b 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -2972,6 +2972,8 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 						}
 						diffuseTransmission->diffuseTransmissionColorFactor[i++] = static_cast<num>(value);
 					}
+				} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
 				}
 
 				TextureInfo diffuseTransmissionColorTexture;
-- 
2.43.0


From 2acddba5a91d7e38fe16490fe73cce9f2b8d586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:05 +0000
Subject: [PATCH 16/68] fix: do not index accessor, combine and drive names
 past their end

---
 include/fastgltf/types.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 4e373bf..4fa0b13 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -451,19 +451,22 @@ namespace fastgltf {
      * Gets the AccessorType by its string representation found in glTF files.
      */
     constexpr auto getAccessorType(std::string_view accessorTypeName) noexcept {
-        assert(!accessorTypeName.empty());
+        // The shortest names, e.g. "VEC2", have four characters.
+        if (accessorTypeName.size() < 4) {
+            return AccessorType::Invalid;
+        }
         switch (accessorTypeName[0]) {
             case 'S': return AccessorType::Scalar;
             case 'V': {
                 const auto componentCount = static_cast<std::size_t>(accessorTypeName[3] - '2');
-                if (componentCount + 1 >= accessorTypes.size()) {
+                if (componentCount > 2) {
                     return AccessorType::Invalid;
                 }
                 return accessorTypes[componentCount + 1];
             }
             case 'M': {
                 const auto componentCount = static_cast<std::size_t>(accessorTypeName[3] - '2');
-                if (componentCount + 4 >= accessorTypes.size()) {
+                if (componentCount > 2) {
                     return AccessorType::Invalid;
                 }
                 return accessorTypes[componentCount + 4];
@@ -522,7 +525,9 @@ namespace fastgltf {
 
 #if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
 	[[nodiscard]] constexpr auto getCombineMode(const std::string_view name) noexcept {
-		assert(!name.empty());
+		if (name.size() < 2) {
+			return CombineMode::Invalid;
+		}
 	    if(name[0] == 'a') {
 			return CombineMode::Average;
 	    }
@@ -555,7 +560,9 @@ namespace fastgltf {
 	}
 
 	[[nodiscard]] constexpr auto getDriveType(const std::string_view name) noexcept {
-		if (name[0] == 'l') {
+		if (name.empty()) {
+			return DriveType::Invalid;
+		} else if (name[0] == 'l') {
 			return DriveType::Linear;
 		} else if (name[0] == 'a') {
 			return DriveType::Angular;
@@ -565,7 +572,9 @@ namespace fastgltf {
 	}
 
 	[[nodiscard]] constexpr auto getDriveMode(const std::string_view name) noexcept {
-	    if (name[0] == 'f') {
+	    if (name.empty()) {
+			return DriveMode::Invalid;
+	    } else if (name[0] == 'f') {
 			return DriveMode::Force;
 	    } else if (name[0] == 'a') {
 			return DriveMode::Acceleration;
-- 
2.43.0


From 8ce499e8d7d3412b7eae6187fe552d8ed62189ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:31 +0000
Subject: [PATCH 17/68] fix: reject unknown accessor types, component types and
 combine modes

---
 src/fastgltf.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index c7eb54b..0040a8f 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1681,7 +1681,13 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
         if (accessorObject["componentType"].get_uint64().get(componentType) != SUCCESS) FASTGLTF_UNLIKELY {
             return Error::InvalidGltf;
         }
+		if (componentType > std::numeric_limits<std::underlying_type_t<ComponentType>>::max()) FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
+		}
 		accessor.componentType = getComponentType(static_cast<std::underlying_type_t<ComponentType>>(componentType));
+		if (accessor.componentType == ComponentType::Invalid) FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
+		}
         if (accessor.componentType == ComponentType::Double && (!hasBit(options, Options::AllowDouble) || !hasBit(config.extensions, Extensions::KHR_accessor_float64))) {
             return Error::InvalidGltf;
         }
@@ -1691,6 +1697,9 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
             return Error::InvalidGltf;
         }
 		accessor.type = getAccessorType(accessorType);
+		if (accessor.type == AccessorType::Invalid) FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
+		}
 
         std::uint64_t accessorCount;
         if (accessorObject["count"].get_uint64().get(accessorCount) != SUCCESS) FASTGLTF_UNLIKELY {
@@ -1840,7 +1849,13 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
             if (child["componentType"].get_uint64().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
                 return Error::InvalidGltf;
             }
+            if (value > std::numeric_limits<std::underlying_type_t<ComponentType>>::max()) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             sparse.indexComponentType = getComponentType(static_cast<std::underlying_type_t<ComponentType>>(value));
+            if (sparse.indexComponentType == ComponentType::Invalid) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
 
             // Accessor Sparse Values
             if (sparseAccessorObject["values"].get_object().get(child) != SUCCESS) FASTGLTF_UNLIKELY {
@@ -4363,6 +4378,9 @@ fg::Error fg::Parser::parsePhysicsMaterials(const simdjson::dom::array& physicsM
 		std::string_view frictionCombine;
 		if (auto error = materialObject["frictionCombine"].get_string().get(frictionCombine); error == SUCCESS) {
 			material.frictionCombine = getCombineMode(frictionCombine);
+			if (material.frictionCombine == CombineMode::Invalid) FASTGLTF_UNLIKELY {
+				return Error::InvalidGltf;
+			}
 		} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 			return Error::InvalidGltf;
 		}
@@ -4370,6 +4388,9 @@ fg::Error fg::Parser::parsePhysicsMaterials(const simdjson::dom::array& physicsM
 		std::string_view restitutionCombine;
 		if (auto error = materialObject["restitutionCombine"].get_string().get(restitutionCombine); error == SUCCESS) {
 		   material.restitutionCombine = getCombineMode(restitutionCombine);
+			if (material.restitutionCombine == CombineMode::Invalid) FASTGLTF_UNLIKELY {
+				return Error::InvalidGltf;
+			}
 		} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 			return Error::InvalidGltf;
 		}
-- 
2.43.0


From 829f94d6f0f1220c61a96f87e5eb4870a2fe7555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:59 +0000
Subject: [PATCH 18/68] fix: load shapes whose properties are all absent as
 their own type

---
 src/fastgltf.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 0040a8f..3027293 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4214,6 +4214,14 @@ fg::Error fg::Parser::parseShapes(const simdjson::dom::array& shapes, Asset& ass
 		if (shapeObject["type"].get_string().get(shapeTypeName) != SUCCESS) FASTGLTF_UNLIKELY {
 			return Error::InvalidGltf;
 		}
+		// The properties of each shape are optional, and with them possibly the whole object.
+		if (shapeTypeName == "box") {
+			shape.emplace<BoxShape>();
+		} else if (shapeTypeName == "capsule") {
+			shape.emplace<CapsuleShape>();
+		} else if (shapeTypeName == "cylinder") {
+			shape.emplace<CylinderShape>();
+		}
 
 		dom::object sphereObject;
 		if (auto error = shapeObject["sphere"].get_object().get(sphereObject); error == SUCCESS) {
-- 
2.43.0


From f7cf51df5549097cf4c885b16adcc27a3af2c831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:09 +0000
Subject: [PATCH 19/68] fix: element traits of 32-bit signed vectors describe
 32-bit components

---
 include/fastgltf/tools.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 32fcd8c..406edba 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -152,9 +152,9 @@ template<> struct ElementTraits<math::u16vec2> : ElementTraitsBase<math::u16vec2
 template<> struct ElementTraits<math::u16vec3> : ElementTraitsBase<math::u16vec3, AccessorType::Vec3, std::uint16_t> {};
 template<> struct ElementTraits<math::u16vec4> : ElementTraitsBase<math::u16vec4, AccessorType::Vec4, std::uint16_t> {};
 
-template<> struct ElementTraits<math::s32vec2> : ElementTraitsBase<math::s32vec2, AccessorType::Vec2, std::int16_t> {};
-template<> struct ElementTraits<math::s32vec3> : ElementTraitsBase<math::s32vec3, AccessorType::Vec3, std::int16_t> {};
-template<> struct ElementTraits<math::s32vec4> : ElementTraitsBase<math::s32vec4, AccessorType::Vec4, std::int16_t> {};
+template<> struct ElementTraits<math::s32vec2> : ElementTraitsBase<math::s32vec2, AccessorType::Vec2, std::int32_t> {};
+template<> struct ElementTraits<math::s32vec3> : ElementTraitsBase<math::s32vec3, AccessorType::Vec3, std::int32_t> {};
+template<> struct ElementTraits<math::s32vec4> : ElementTraitsBase<math::s32vec4, AccessorType::Vec4, std::int32_t> {};
 template<> struct ElementTraits<math::u32vec2> : ElementTraitsBase<math::u32vec2, AccessorType::Vec2, std::uint32_t> {};
 template<> struct ElementTraits<math::u32vec3> : ElementTraitsBase<math::u32vec3, AccessorType::Vec3, std::uint32_t> {};
 template<> struct ElementTraits<math::u32vec4> : ElementTraitsBase<math::u32vec4, AccessorType::Vec4, std::uint32_t> {};
-- 
2.43.0


From 099b0576c72005aea4615dca8b17c476fc1a1f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:23 +0000
Subject: [PATCH 20/68] fix: make the reverse iterators of SmallVector compile

---
 include/fastgltf/types.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 4fa0b13..3e56e94 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -842,12 +842,12 @@ namespace fastgltf {
 	    [[nodiscard]] const_iterator end() const noexcept { return begin() + size(); }
 	    [[nodiscard]] const_iterator cend() const noexcept { return begin() + size(); }
 
-        [[nodiscard]] std::reverse_iterator<T*> rbegin() { return end(); }
-        [[nodiscard]] std::reverse_iterator<const T*> rbegin() const { return end(); }
-        [[nodiscard]] std::reverse_iterator<const T*> crbegin() const { return end(); }
-        [[nodiscard]] std::reverse_iterator<T*> rend() { return begin(); }
-        [[nodiscard]] std::reverse_iterator<const T*> rend() const { return begin(); }
-        [[nodiscard]] std::reverse_iterator<const T*> crend() const { return begin(); }
+        [[nodiscard]] std::reverse_iterator<T*> rbegin() { return std::reverse_iterator<T*>(end()); }
+        [[nodiscard]] std::reverse_iterator<const T*> rbegin() const { return std::reverse_iterator<const T*>(end()); }
+        [[nodiscard]] std::reverse_iterator<const T*> crbegin() const { return std::reverse_iterator<const T*>(end()); }
+        [[nodiscard]] std::reverse_iterator<T*> rend() { return std::reverse_iterator<T*>(begin()); }
+        [[nodiscard]] std::reverse_iterator<const T*> rend() const { return std::reverse_iterator<const T*>(begin()); }
+        [[nodiscard]] std::reverse_iterator<const T*> crend() const { return std::reverse_iterator<const T*>(begin()); }
 
         [[nodiscard]] T* data() noexcept { return _data; }
         [[nodiscard]] const T* data() const noexcept { return _data; }
-- 
2.43.0


From a7b31948e8558b624636ae33900a251a053b5c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:56 +0000
Subject: [PATCH 21/68] fix: SmallVector constructs in raw storage and owns
 exactly one allocation

Copies were assigned to unconstructed memory (which also did not compile for
element types without copy assignment), moving and clearing left the source
with a capacity it did not have, and move assignment, reserve and
shrink_to_fit leaked or double-freed the old heap storage.
---
 include/fastgltf/types.hpp | 135 +++++++++++++++----------------------
 1 file changed, 56 insertions(+), 79 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 3e56e94..8444cc5 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -737,16 +737,41 @@ namespace fastgltf {
         T* _data;
         std::size_t _size = 0, _capacity = N;
 
-        void copy(const T* first, std::size_t count, T* result) {
-            if (count > 0) {
-				if constexpr (std::is_trivially_copyable_v<T>) {
-					std::memcpy(result, first, count * sizeof(T));
-				} else {
-					*result++ = *first;
-					for (std::size_t i = 1; i < count; ++i) {
-						*result++ = *++first;
-					}
-				}
+        // Constructs copies of the elements in the uninitialised memory at result.
+        static void copy(const T* first, std::size_t count, T* result) {
+            if constexpr (std::is_trivially_copyable_v<T>) {
+                if (count > 0) {
+                    std::memcpy(static_cast<void*>(result), first, count * sizeof(T));
+                }
+            } else {
+                for (std::size_t i = 0; i < count; ++i) {
+                    new (result + i) T(first[i]);
+                }
+            }
+        }
+
+        // Moves the elements into the uninitialised memory at result, and destroys the originals.
+        static void relocate(T* first, std::size_t count, T* result) {
+            for (std::size_t i = 0; i < count; ++i) {
+                if constexpr (std::is_nothrow_move_constructible_v<T> || !std::is_copy_constructible_v<T>) {
+                    new (result + i) T(std::move(first[i]));
+                } else {
+                    new (result + i) T(first[i]);
+                }
+            }
+            std::destroy(first, first + count);
+        }
+
+        // Takes the elements of other, which is left empty. This object has to be empty and using its own storage.
+        void take(SmallVector& other) {
+            if (!other.isUsingStack() && allocator == other.allocator) {
+                _data = std::exchange(other._data, reinterpret_cast<T*>(other.storage.data()));
+                _size = std::exchange(other._size, 0);
+                _capacity = std::exchange(other._capacity, N);
+            } else {
+                reserve(other.size());
+                relocate(other.begin(), other.size(), begin());
+                _size = std::exchange(other._size, 0);
             }
         }
 
@@ -771,56 +796,29 @@ namespace fastgltf {
         }
 
         SmallVector(const SmallVector& other) noexcept : _data(reinterpret_cast<T*>(storage.data())) {
-            resize(other.size());
+            reserve(other.size());
             copy(other.begin(), other.size(), begin());
+            _size = other.size();
         }
 
-        SmallVector(SmallVector&& other) noexcept : _data(reinterpret_cast<T*>(storage.data())) {
-            if (other.isUsingStack()) {
-                if (!other.empty()) {
-                    resize(other.size());
-                    copy(other.begin(), other.size(), begin());
-                    other._data = reinterpret_cast<T*>(other.storage.data()); // Reset pointer
-                    _size = std::exchange(other._size, 0);
-                    _capacity = std::exchange(other._capacity, N);
-                }
-            } else {
-                _data = std::exchange(other._data, nullptr);
-                _size = std::exchange(other._size, 0);
-                _capacity = std::exchange(other._capacity, N);
-            }
+        SmallVector(SmallVector&& other) noexcept : allocator(other.allocator), _data(reinterpret_cast<T*>(storage.data())) {
+            take(other);
         }
 
         SmallVector& operator=(const SmallVector& other) {
             if (std::addressof(other) != this) {
-                if (!isUsingStack() && _data) {
-	                std::destroy(begin(), end());
-					allocator.deallocate(_data, _capacity);
-                    _data = reinterpret_cast<T*>(storage.data());
-                    _size = _capacity = 0;
-                }
-
-                resize(other.size());
+                clear();
+                reserve(other.size());
                 copy(other.begin(), other.size(), begin());
+                _size = other.size();
             }
             return *this;
         }
 
         SmallVector& operator=(SmallVector&& other) noexcept {
             if (std::addressof(other) != this) {
-                if (other.isUsingStack()) {
-                    if (!other.empty()) {
-                        resize(other.size());
-                        copy(other.begin(), other.size(), begin());
-                        other._data = reinterpret_cast<T*>(other.storage.data()); // Reset pointer
-                        _size = std::exchange(other._size, 0);
-                        _capacity = std::exchange(other._capacity, N);
-                    }
-                } else {
-                    _data = std::exchange(other._data, nullptr);
-                    _size = std::exchange(other._size, 0);
-                    _capacity = std::exchange(other._capacity, N);
-                }
+                clear();
+                take(other);
             }
             return *this;
         }
@@ -880,22 +878,10 @@ namespace fastgltf {
 
 			T* alloc = allocator.allocate(newCapacity);
 
-			// Copy/Move the old data into the new memory
-			for (std::size_t i = 0; i < size(); ++i) {
-				auto& x = (*this)[i];
-				if constexpr (std::is_nothrow_move_constructible_v<T>) {
-					new(alloc + i) T(std::move(x));
-				} else if constexpr (std::is_copy_constructible_v<T>) {
-					new(alloc + i) T(x);
-				} else {
-					new(alloc + i) T(std::move(x));
-				}
-			}
-
-			// Destroy all objects in the old allocation
-			std::destroy(begin(), end());
+			// Copy/Move the old data into the new memory, destroying all objects in the old allocation
+			relocate(begin(), size(), alloc);
 
-            if (!isUsingStack() && _data && size() != 0) {
+            if (!isUsingStack() && _data) {
 				allocator.deallocate(_data, _capacity);
             }
 
@@ -960,23 +946,13 @@ namespace fastgltf {
 				return;
 			}
 
-			// If we can use the object's memory again, we'll copy everything over.
-			if (size() <= N) {
-				copy(begin(), size(), reinterpret_cast<T*>(storage.data()));
-				_data = reinterpret_cast<T*>(storage.data());
-			} else {
-				// We have to use heap allocated memory.
-				auto* alloc = allocator.allocate(size());
-				for (std::size_t i = 0; i < size(); ++i) {
-					new(alloc + i) T((*this)[i]);
-				}
-
-				if (_data && !isUsingStack()) {
-					std::destroy(begin(), end());
-					allocator.deallocate(_data, _capacity);
-				}
-
-				_data = alloc;
+			// If we can use the object's memory again, we'll move everything over. Otherwise,
+			// we have to use heap allocated memory.
+			if (!isUsingStack()) {
+				auto* target = size() <= N ? reinterpret_cast<T*>(storage.data()) : allocator.allocate(size());
+				relocate(begin(), size(), target);
+				allocator.deallocate(_data, _capacity);
+				_data = target;
 			}
 
 			_capacity = _size;
@@ -1005,9 +981,10 @@ namespace fastgltf {
 		void clear() noexcept {
 			std::destroy(begin(), end());
 
-			if (!isUsingStack() && size() != 0) {
+			if (!isUsingStack()) {
 				allocator.deallocate(_data, _capacity);
 				_data = reinterpret_cast<T*>(storage.data());
+				_capacity = N;
 			}
 
 			_size = 0;
-- 
2.43.0


From efb5d25123e7010a3c3211dce516574f8e698056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:56 +0000
Subject: [PATCH 22/68] fix: StaticVector copies whole elements and moved-from
 vectors are empty

---
 include/fastgltf/types.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 8444cc5..3b756c2 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -641,12 +641,14 @@ namespace fastgltf {
 
         StaticVector(StaticVector&& other) noexcept {
             _array = std::move(other._array);
-            _size = other.size();
+            _size = std::exchange(other._size, 0);
         }
 
 		StaticVector& operator=(StaticVector&& other) noexcept {
-			_array = std::move(other._array);
-			_size = other.size();
+			if (std::addressof(other) != this) {
+				_array = std::move(other._array);
+				_size = std::exchange(other._size, 0);
+			}
 			return *this;
 		}
 
@@ -656,7 +658,7 @@ namespace fastgltf {
 		static StaticVector<T> fromVector(std::vector<T> vector) {
 			StaticVector<T> staticVector(vector.size());
 			if constexpr (std::is_trivially_copyable_v<T>) {
-				std::memcpy(staticVector.data(), vector.data(), vector.size());
+				std::memcpy(staticVector.data(), vector.data(), vector.size() * sizeof(T));
 			} else {
 				for (auto it = vector.begin(); it != vector.end(); ++it) {
 					staticVector[std::distance(vector.begin(), it)] = *it;
-- 
2.43.0


From f00c24a748d121dc016d455c01fc276c0acefc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:05 +0000
Subject: [PATCH 23/68] fix: AccessorBoundsArray move assignment destroys its
 own buffer type

---
 include/fastgltf/types.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 3b756c2..7ea21cc 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -1626,7 +1626,7 @@ namespace fastgltf {
 
 		AccessorBoundsArray(const AccessorBoundsArray& other) = delete;
 		AccessorBoundsArray(AccessorBoundsArray&& other) noexcept
-			: len(other.len), dataType(other.dataType) {
+			: len(std::exchange(other.len, 0)), dataType(other.dataType) {
 			switch (other.dataType) {
 				case BoundsType::int64:
 					new (&int64_buffer) std::unique_ptr(std::move(other.int64_buffer));
@@ -1641,8 +1641,9 @@ namespace fastgltf {
 
 		auto& operator=(const AccessorBoundsArray& other) = delete;
 		auto& operator=(AccessorBoundsArray&& other) noexcept {
-			len = other.len;
-			dataType = other.dataType;
+			if (this == &other) {
+				return *this;
+			}
 			switch (dataType) {
 				case BoundsType::int64:
 					std::destroy_at(&int64_buffer);
@@ -1653,6 +1654,8 @@ namespace fastgltf {
 				default:
 					FASTGLTF_UNREACHABLE
 			}
+			len = std::exchange(other.len, 0);
+			dataType = other.dataType;
 			switch (other.dataType) {
 				case BoundsType::int64:
 					new (&int64_buffer) std::unique_ptr(std::move(other.int64_buffer));
-- 
2.43.0


From f4a46b807a89594aefa08e1e4fb60b7dbb1aeb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:05 +0000
Subject: [PATCH 24/68] fix: fill non-square matrices column by column

---
 include/fastgltf/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index 2112fa6..51ddc18 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -629,7 +629,7 @@ namespace fastgltf::math {
 
 		template <typename... Args, std::size_t... i>
 		constexpr void copy_values(const std::tuple<Args...>& tuple, std::integer_sequence<std::size_t, i...>) noexcept {
-			(..., (_data[i / M][i % N] = std::get<i>(std::move(tuple))));
+			(..., (_data[i / N][i % N] = std::get<i>(std::move(tuple))));
 		}
 
 	public:
-- 
2.43.0


From 541c06912c1e787d2309b2f3460c90f599e20a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:51 +0000
Subject: [PATCH 25/68] fix: copyFromAccessor applies the accessor's
 normalization when it converts

---
 include/fastgltf/tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 406edba..d765517 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -846,7 +846,7 @@ void copyFromAccessor(const Asset& asset, const Accessor& accessor, void* dest,
 		for (std::size_t i = 0; i < accessor.count; ++i) {
 			auto* pDest = reinterpret_cast<ElementType*>(dstBytes + TargetStride * i);
 			*pDest = internal::getAccessorElementAt<ElementType>(
-                    accessor.componentType, &srcBytes[srcStride * i]);
+                    accessor.componentType, &srcBytes[srcStride * i], accessor.normalized);
 		}
 	}
 }
-- 
2.43.0


From 4567a55f03cf648630899c05382ec56a7e13fcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:51 +0000
Subject: [PATCH 26/68] fix: copyComponentsFromAccessor packs converted
 components and supports accessors without buffer view

---
 include/fastgltf/tools.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index d765517..8c5b243 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -868,6 +868,13 @@ void copyComponentsFromAccessor(const Asset& asset, const Accessor& accessor, vo
 	auto elemSize = getElementByteSize(accessor.type, accessor.componentType);
 	auto componentCount = getNumComponents(accessor.type);
 
+	// 5.1.1. accessor.bufferView
+	// The index of the buffer view. When undefined, the accessor MUST be initialized with zeros.
+	if (!accessor.bufferViewIndex) {
+		std::memset(dest, 0, sizeof(ComponentType) * componentCount * accessor.count);
+		return;
+	}
+
 	auto& view = asset.bufferViews[*accessor.bufferViewIndex];
 	auto srcStride = view.byteStride.value_or(elemSize);
 
@@ -884,7 +891,7 @@ void copyComponentsFromAccessor(const Asset& asset, const Accessor& accessor, vo
 	} else {
 		for (std::size_t i = 0; i < accessor.count; ++i) {
 			for (std::size_t j = 0; j < componentCount; ++j) {
-				auto* pDest = reinterpret_cast<ComponentType*>(dstBytes + elemSize * i) + j;
+				auto* pDest = reinterpret_cast<ComponentType*>(dstBytes) + componentCount * i + j;
 				*pDest = internal::getAccessorComponentAt<ComponentType>(
 					accessor.componentType, accessor.type, &srcBytes[i * srcStride], j, accessor.normalized);
 			}
-- 
2.43.0


From c4ecb6df711d90459774b4f8bd1e453a64d44cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:51 +0000
Subject: [PATCH 27/68] fix: accessor iterators support accessors without
 buffer view or sparse values and repeated dereferencing

---
 include/fastgltf/tools.hpp | 59 ++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 8c5b243..2e4bb81 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -474,8 +474,15 @@ class AccessorIterator {
 protected:
 	const IterableAccessor<ElementType, BufferDataAdapter>* accessor = nullptr;
 	std::size_t idx = std::numeric_limits<std::size_t>::max();
-	mutable std::size_t sparseIdx = 0;
-	mutable std::size_t nextSparseIndex = 0;
+	std::size_t sparseIdx = 0;
+	std::size_t nextSparseIndex = 0;
+
+	void readSparseIndex() noexcept {
+		if (sparseIdx < accessor->sparseCount) {
+			nextSparseIndex = internal::getAccessorElementAt<std::uint32_t>(accessor->indexComponentType,
+			                                                                &accessor->indicesBytes[accessor->indexStride * sparseIdx]);
+		}
+	}
 
 public:
 	using value_type = ElementType;
@@ -491,14 +498,16 @@ public:
 
 	AccessorIterator(const IterableAccessor<ElementType, BufferDataAdapter>* accessor, std::size_t idx = 0)
 			: accessor(accessor), idx(idx) {
-		if (accessor->accessor.sparse.has_value()) {
-			// Get the first sparse index.
-			nextSparseIndex = internal::getAccessorElementAt<std::uint32_t>(accessor->indexComponentType,
-			                                                                &accessor->indicesBytes[accessor->indexStride * sparseIdx]);
-		}
+		// Get the first sparse index.
+		readSparseIndex();
 	}
 
 	AccessorIterator& operator++() noexcept {
+		if (sparseIdx < accessor->sparseCount && idx == nextSparseIndex) {
+			// Find the next sparse index.
+			++sparseIdx;
+			readSparseIndex();
+		}
 		++idx;
 		return *this;
 	}
@@ -528,22 +537,21 @@ public:
 
 	[[nodiscard]] ElementType operator*() const noexcept {
 		if (accessor->accessor.sparse.has_value()) {
-			if (idx == nextSparseIndex) {
+			if (sparseIdx < accessor->sparseCount && idx == nextSparseIndex) {
 				// Get the sparse value for this index
-				auto value = internal::getAccessorElementAt<ElementType>(accessor->componentType,
-																		 &accessor->valuesBytes[accessor->valueStride * sparseIdx],
-																		 accessor->accessor.normalized);
-
-				// Find the next sparse index.
-				++sparseIdx;
-				if (sparseIdx < accessor->sparseCount) {
-					nextSparseIndex = internal::getAccessorElementAt<std::uint32_t>(accessor->indexComponentType,
-					                                                                &accessor->indicesBytes[accessor->indexStride * sparseIdx]);
-				}
-				return value;
+				return internal::getAccessorElementAt<ElementType>(accessor->componentType,
+				                                                   &accessor->valuesBytes[accessor->valueStride * sparseIdx],
+				                                                   accessor->accessor.normalized);
 			}
 		}
 
+		// 5.1.1. accessor.bufferView
+		// The index of the buffer view. When undefined, the accessor MUST be initialized with zeros; sparse
+		// property or extensions MAY override zeros with actual values.
+		if (!accessor->accessor.bufferViewIndex) {
+			return ElementType {};
+		}
+
 		return internal::getAccessorElementAt<ElementType>(accessor->componentType,
 														   &accessor->bufferBytes[idx * accessor->stride],
 														   accessor->accessor.normalized);
@@ -571,7 +579,7 @@ class IterableAccessor {
 	span<const std::byte> valuesBytes;
 	std::size_t indexStride;
 	std::size_t valueStride;
-	std::size_t sparseCount;
+	std::size_t sparseCount = 0;
 
 public:
 	using iterator = AccessorIterator<ElementType, BufferDataAdapter>;
@@ -580,12 +588,15 @@ public:
 		assert(accessor.type == ElementTraits<ElementType>::type && "The destination type needs to have the same AccessorType as the accessor.");
 		componentType = accessor.componentType;
 
-		const auto& view = asset.bufferViews[*accessor.bufferViewIndex];
-		stride = view.byteStride ? *view.byteStride : getElementByteSize(accessor.type, accessor.componentType);
+		stride = getElementByteSize(accessor.type, accessor.componentType);
+		if (accessor.bufferViewIndex) {
+			const auto& view = asset.bufferViews[*accessor.bufferViewIndex];
+			stride = view.byteStride.value_or(stride);
 
-		bufferBytes = adapter(asset, *accessor.bufferViewIndex).subspan(accessor.byteOffset);
+			bufferBytes = adapter(asset, *accessor.bufferViewIndex).subspan(accessor.byteOffset);
+		}
 
-		if (accessor.sparse.has_value()) {
+		if (accessor.sparse.has_value() && accessor.sparse->count > 0) {
 			indicesBytes = adapter(asset, accessor.sparse->indicesBufferView).subspan(accessor.sparse->indicesByteOffset);
 
 			indexStride = getElementByteSize(AccessorType::Scalar, accessor.sparse->indexComponentType);
-- 
2.43.0


From fbefb1c243c9217d7f118cddb8b485ec544b4ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 28/68] fix: zero whole destination elements for accessors
 without buffer view

---
 include/fastgltf/tools.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 2e4bb81..2a5a0da 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -817,11 +817,11 @@ void copyFromAccessor(const Asset& asset, const Accessor& accessor, void* dest,
 	// property or extensions MAY override zeros with actual values.
 	if (!accessor.bufferViewIndex) {
 		if constexpr (std::is_trivially_copyable_v<ElementType>) {
-			if (TargetStride == elemSize) {
-				std::memset(dest, 0, elemSize * accessor.count);
+			if (TargetStride == sizeof(ElementType)) {
+				std::memset(dest, 0, sizeof(ElementType) * accessor.count);
 			} else {
 				for (std::size_t i = 0; i < accessor.count; ++i) {
-					std::memset(dstBytes + i * TargetStride, 0, elemSize);
+					std::memset(dstBytes + i * TargetStride, 0, sizeof(ElementType));
 				}
 			}
 		} else {
-- 
2.43.0


From 1ed5d43187f20fe2d3fd8118aad6db88da7951b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 29/68] fix: matrix accessors without buffer view contain zeros
 instead of identity matrices

---
 include/fastgltf/tools.hpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 2a5a0da..f24fe6c 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -388,6 +388,14 @@ ElementType getAccessorElementAt(ComponentType componentType, const std::byte* b
 	}
 }
 
+// The element of an accessor without data. Default construction is not enough for this, as it gives an identity matrix.
+template <typename ElementType>
+ElementType zeroAccessorElement() {
+	using Traits = ElementTraits<ElementType>;
+	constexpr std::array<std::byte, getElementByteSize(Traits::type, Traits::enum_component_type)> zeros = {};
+	return getAccessorElementAt<ElementType>(Traits::enum_component_type, zeros.data());
+}
+
 // Performs a binary search for the index into the sparse index list whose value matches the desired index
 template <typename ElementType>
 bool findSparseIndex(const std::byte* indices, std::size_t indexCount, std::size_t desiredIndex,
@@ -549,7 +557,7 @@ public:
 		// The index of the buffer view. When undefined, the accessor MUST be initialized with zeros; sparse
 		// property or extensions MAY override zeros with actual values.
 		if (!accessor->accessor.bufferViewIndex) {
-			return ElementType {};
+			return internal::zeroAccessorElement<ElementType>();
 		}
 
 		return internal::getAccessorElementAt<ElementType>(accessor->componentType,
@@ -660,11 +668,7 @@ ElementType getAccessorElement(const Asset& asset, const Accessor& accessor, siz
 	// The index of the buffer view. When undefined, the accessor MUST be initialized with zeros; sparse
 	// property or extensions MAY override zeros with actual values.
 	if (!accessor.bufferViewIndex) {
-		if constexpr (std::is_aggregate_v<ElementType>) {
-			return ElementType{};
-		} else {
-			return ElementType();
-		}
+		return internal::zeroAccessorElement<ElementType>();
 	}
 
 	const auto& view = asset.bufferViews[*accessor.bufferViewIndex];
@@ -745,7 +749,7 @@ void iterateAccessor(const Asset& asset, const Accessor& accessor, Functor&& fun
 
 				std::invoke(func, element);
 			} else {
-				std::invoke(func, ElementType {});
+				std::invoke(func, internal::zeroAccessorElement<ElementType>());
 			}
 		}
 
@@ -757,7 +761,7 @@ void iterateAccessor(const Asset& asset, const Accessor& accessor, Functor&& fun
 	// property or extensions MAY override zeros with actual values.
 	if (!accessor.bufferViewIndex) {
 		for (std::size_t i = 0; i < accessor.count; ++i) {
-			std::invoke(func, ElementType {});
+			std::invoke(func, internal::zeroAccessorElement<ElementType>());
 		}
 	} else {
 		auto& view = asset.bufferViews[*accessor.bufferViewIndex];
@@ -828,11 +832,7 @@ void copyFromAccessor(const Asset& asset, const Accessor& accessor, void* dest,
 			for (std::size_t i = 0; i < accessor.count; ++i) {
 				auto* pDest = reinterpret_cast<ElementType*>(dstBytes + TargetStride * i);
 
-				if constexpr (std::is_aggregate_v<ElementType>) {
-					*pDest = ElementType {};
-				} else {
-					*pDest = ElementType();
-				}
+				*pDest = internal::zeroAccessorElement<ElementType>();
 			}
 		}
 
-- 
2.43.0


From da2e9216661e79b9c357e617a9a7f6f25ad482b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:45 +0000
Subject: [PATCH 30/68] fix: validate() checks every index the asset stores

---
 src/fastgltf.cpp | 115 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 115 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 3027293..82c00f9 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1025,6 +1025,9 @@ fg::Error fg::validate(const Asset& asset) {
 		}
 
 		if (accessor.sparse) {
+			if (accessor.sparse->indicesBufferView >= asset.bufferViews.size() || accessor.sparse->valuesBufferView >= asset.bufferViews.size())
+				return Error::InvalidGltf;
+
 			const auto& indicesView = asset.bufferViews[accessor.sparse->indicesBufferView];
 			if (indicesView.byteStride || indicesView.target)
 				return Error::InvalidGltf;
@@ -1051,7 +1054,16 @@ fg::Error fg::validate(const Asset& asset) {
 
 		if (animation.samplers.empty())
 			return Error::InvalidGltf;
+		for (const auto& sampler : animation.samplers) {
+			if (sampler.inputAccessor >= asset.accessors.size() || sampler.outputAccessor >= asset.accessors.size())
+				return Error::InvalidGltf;
+		}
 		for (const auto& channel : animation.channels) {
+			if (channel.samplerIndex >= animation.samplers.size())
+				return Error::InvalidGltf;
+			if (channel.nodeIndex.has_value() && channel.nodeIndex.value() >= asset.nodes.size())
+				return Error::InvalidGltf;
+
 			const auto& sampler = animation.samplers[channel.samplerIndex];
 
 			const auto& inputAccessor = asset.accessors[sampler.inputAccessor];
@@ -1107,6 +1119,8 @@ fg::Error fg::validate(const Asset& asset) {
 
 		if (bufferView.meshoptCompression) {
 			const auto& compression = bufferView.meshoptCompression;
+			if (compression->bufferIndex >= asset.buffers.size())
+				return Error::InvalidGltf;
 			switch (compression->mode) {
 				case MeshoptCompressionMode::Attributes:
 					if (compression->byteStride % 4 != 0 || compression->byteStride > 256)
@@ -1187,6 +1201,42 @@ fg::Error fg::validate(const Asset& asset) {
 		    isInvalidTexture(material.pbrData.metallicRoughnessTexture->textureIndex))
 			return Error::InvalidGltf;
 
+		auto isInvalidTextureInfo = [&isInvalidTexture](const auto& textureInfo) {
+			return textureInfo.has_value() && isInvalidTexture(textureInfo->textureIndex);
+		};
+		if (material.anisotropy && isInvalidTextureInfo(material.anisotropy->anisotropyTexture))
+			return Error::InvalidGltf;
+		if (material.clearcoat && (isInvalidTextureInfo(material.clearcoat->clearcoatTexture)
+			|| isInvalidTextureInfo(material.clearcoat->clearcoatRoughnessTexture)
+			|| isInvalidTextureInfo(material.clearcoat->clearcoatNormalTexture)))
+			return Error::InvalidGltf;
+		if (material.iridescence && (isInvalidTextureInfo(material.iridescence->iridescenceTexture)
+			|| isInvalidTextureInfo(material.iridescence->iridescenceThicknessTexture)))
+			return Error::InvalidGltf;
+		if (material.sheen && (isInvalidTextureInfo(material.sheen->sheenColorTexture)
+			|| isInvalidTextureInfo(material.sheen->sheenRoughnessTexture)))
+			return Error::InvalidGltf;
+		if (material.specular && (isInvalidTextureInfo(material.specular->specularTexture)
+			|| isInvalidTextureInfo(material.specular->specularColorTexture)))
+			return Error::InvalidGltf;
+		if (material.specularGlossiness && (isInvalidTextureInfo(material.specularGlossiness->diffuseTexture)
+			|| isInvalidTextureInfo(material.specularGlossiness->specularGlossinessTexture)))
+			return Error::InvalidGltf;
+		if (material.transmission && isInvalidTextureInfo(material.transmission->transmissionTexture))
+			return Error::InvalidGltf;
+		if (material.volume && isInvalidTextureInfo(material.volume->thicknessTexture))
+			return Error::InvalidGltf;
+		if (material.diffuseTransmission && (isInvalidTextureInfo(material.diffuseTransmission->diffuseTransmissionTexture)
+			|| isInvalidTextureInfo(material.diffuseTransmission->diffuseTransmissionColorTexture)))
+			return Error::InvalidGltf;
+		if (isInvalidTextureInfo(material.packedNormalMetallicRoughnessTexture))
+			return Error::InvalidGltf;
+		if (material.packedOcclusionRoughnessMetallicTextures
+			&& (isInvalidTextureInfo(material.packedOcclusionRoughnessMetallicTextures->occlusionRoughnessMetallicTexture)
+			|| isInvalidTextureInfo(material.packedOcclusionRoughnessMetallicTextures->roughnessMetallicOcclusionTexture)
+			|| isInvalidTextureInfo(material.packedOcclusionRoughnessMetallicTextures->normalTexture)))
+			return Error::InvalidGltf;
+
 		// Validate that for every additional material field from an extension the correct extension is marked as used by the asset.
 		if (material.anisotropy && !isExtensionUsed(extensions::KHR_materials_anisotropy))
 			return Error::InvalidGltf;
@@ -1246,6 +1296,16 @@ fg::Error fg::validate(const Asset& asset) {
 				}
 			}
 
+			for (const auto& target : primitive.targets) {
+				for (const auto& attribute : target) {
+					if (attribute.accessorIndex >= asset.accessors.size())
+						return Error::InvalidGltf;
+				}
+			}
+
+			if (primitive.dracoCompression && primitive.dracoCompression->bufferView >= asset.bufferViews.size())
+				return Error::InvalidGltf;
+
 			for (const auto& [name, index] : primitive.attributes) {
 				if (asset.accessors.size() <= index)
 					return Error::InvalidGltf;
@@ -1355,6 +1415,54 @@ fg::Error fg::validate(const Asset& asset) {
 			return Error::InvalidGltf;
 		if (node.meshIndex.has_value() && asset.meshes.size() <= node.meshIndex.value())
 			return Error::InvalidGltf;
+		if (node.lightIndex.has_value() && asset.lights.size() <= node.lightIndex.value())
+			return Error::InvalidGltf;
+		for (const auto& child : node.children) {
+			if (child >= asset.nodes.size())
+				return Error::InvalidGltf;
+		}
+		for (const auto& attribute : node.instancingAttributes) {
+			if (attribute.accessorIndex >= asset.accessors.size())
+				return Error::InvalidGltf;
+		}
+
+#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
+		if (node.physicsRigidBody) {
+			auto isInvalidGeometry = [&asset](const Geometry& geometry) {
+#if FASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES
+				if (geometry.shape.has_value() && geometry.shape.value() >= asset.shapes.size())
+					return true;
+#endif
+				return geometry.node.has_value() && geometry.node.value() >= asset.nodes.size();
+			};
+			auto isInvalidFilter = [&asset](const Optional<std::size_t>& filter) {
+				return filter.has_value() && filter.value() >= asset.collisionFilters.size();
+			};
+
+			const auto& rigidBody = *node.physicsRigidBody;
+			if (rigidBody.collider.has_value()) {
+				if (isInvalidGeometry(rigidBody.collider->geometry) || isInvalidFilter(rigidBody.collider->collisionFilter))
+					return Error::InvalidGltf;
+				if (rigidBody.collider->physicsMaterial.has_value() && rigidBody.collider->physicsMaterial.value() >= asset.physicsMaterials.size())
+					return Error::InvalidGltf;
+			}
+			if (rigidBody.trigger.has_value()) {
+				if (const auto* geometryTrigger = std::get_if<GeometryTrigger>(&rigidBody.trigger.value())) {
+					if (isInvalidGeometry(geometryTrigger->geometry) || isInvalidFilter(geometryTrigger->collisionFilter))
+						return Error::InvalidGltf;
+				} else if (const auto* nodeTrigger = std::get_if<NodeTrigger>(&rigidBody.trigger.value())) {
+					for (const auto& triggerNode : nodeTrigger->nodes) {
+						if (triggerNode >= asset.nodes.size())
+							return Error::InvalidGltf;
+					}
+				}
+			}
+			if (rigidBody.joint.has_value()) {
+				if (rigidBody.joint->connectedNode >= asset.nodes.size() || rigidBody.joint->joint >= asset.physicsJoints.size())
+					return Error::InvalidGltf;
+			}
+		}
+#endif
 
 		if (const auto* pTRS = std::get_if<TRS>(&node.transform)) {
 			if (pTRS->rotation.x() > 1.0 || pTRS->rotation.x() < -1.0)
@@ -1406,9 +1514,16 @@ fg::Error fg::validate(const Asset& asset) {
 		}
 	}
 
+	if (asset.defaultScene.has_value() && asset.defaultScene.value() >= asset.scenes.size())
+		return Error::InvalidGltf;
+
 	for (const auto& skin : asset.skins) {
 		if (skin.joints.empty())
 			return Error::InvalidGltf;
+		for (const auto& joint : skin.joints) {
+			if (joint >= asset.nodes.size())
+				return Error::InvalidGltf;
+		}
 		if (skin.skeleton.has_value() && skin.skeleton.value() >= asset.nodes.size())
 			return Error::InvalidGltf;
 		if (skin.inverseBindMatrices.has_value() && skin.inverseBindMatrices.value() >= asset.accessors.size())
-- 
2.43.0


From def32539c871edc1bf559d3d79e5d01298016104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 31/68] fix: write the spot object of punctual spot lights

---
 src/fastgltf.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 82c00f9..d649a73 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5904,11 +5904,16 @@ void fg::Exporter::writeLights(const Asset& asset, std::string& json) {
 		}
 
 		if (it->type == LightType::Spot) {
+			// The spot object is required for spot lights, even if both angles have their default value.
+			json += R"(,"spot":{)";
 			if (it->innerConeAngle.has_value())
-				json += R"("innerConeAngle":)" + to_string_fp(it->innerConeAngle.value()) + ',';
+				json += R"("innerConeAngle":)" + to_string_fp(it->innerConeAngle.value());
 
-			if (it->outerConeAngle.has_value())
-				json += R"("outerConeAngle":)" + to_string_fp(it->outerConeAngle.value()) + ',';
+			if (it->outerConeAngle.has_value()) {
+				if (json.back() != '{') json += ',';
+				json += R"("outerConeAngle":)" + to_string_fp(it->outerConeAngle.value());
+			}
+			json += '}';
 		}
 
 		if (!it->name.empty())
-- 
2.43.0


From a82d0cd9cd9f7d4385d39bd91790b6ba435c8025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 32/68] fix: separate the textures of
 MSFT_packing_occlusionRoughnessMetallic with commas

---
 src/fastgltf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index d649a73..c800302 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6277,10 +6277,12 @@ void fg::Exporter::writeMaterials(const Asset& asset, std::string& json) {
 				writeTextureInfo(json, &it->packedOcclusionRoughnessMetallicTextures->occlusionRoughnessMetallicTexture.value());
 			}
 			if (it->packedOcclusionRoughnessMetallicTextures->roughnessMetallicOcclusionTexture.has_value()) {
+				if (json.back() != '{') json += ',';
 				json += R"("roughnessMetallicOcclusionTexture":)";
 				writeTextureInfo(json, &it->packedOcclusionRoughnessMetallicTextures->roughnessMetallicOcclusionTexture.value());
 			}
 			if (it->packedOcclusionRoughnessMetallicTextures->normalTexture.has_value()) {
+				if (json.back() != '{') json += ',';
 				json += R"("normalTexture":)";
 				writeTextureInfo(json, &it->packedOcclusionRoughnessMetallicTextures->normalTexture.value());
 			}
-- 
2.43.0


From 31111be7a4f0ed9afedbb1ea1a9747e9785d17cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 33/68] fix: write valid JSON for KHR_physics_rigid_bodies on
 nodes

---
 src/fastgltf.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index c800302..f12dbea 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6563,10 +6563,10 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 #if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
 			if (it->physicsRigidBody) {
 				if (json.back() != '{') json += ',';
-				json += R"("KHR_physics_rigid_body":{)";
+				json += R"("KHR_physics_rigid_bodies":{)";
 				if (it->physicsRigidBody->motion.has_value()) {
 					const auto& motion = *it->physicsRigidBody->motion;
-					json += R"("motion":{"isKinematic":)" + std::to_string(motion.isKinematic);
+					json += R"("motion":{"isKinematic":)" + std::string(motion.isKinematic ? "true" : "false");
 					if (motion.mass.has_value()) {
 						json += R"(,"mass":)" + to_string_fp(*motion.mass);
 					}
@@ -6577,9 +6577,9 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 					if (motion.inertialOrientation.has_value()) {
 						json += R"(,"inertialOrientation":[)" + to_string(*motion.inertialOrientation) + ']';
 					}
-					json += R"(,"linearVelocity":)" + to_string(motion.linearVelocity)
+					json += R"(,"linearVelocity":[)" + to_string(motion.linearVelocity)
 				        + R"(],"angularVelocity":[)" + to_string(motion.angularVelocity)
-				        + R"(],"gravityFactor":[)" + to_string_fp(motion.gravityFactor) + '}';
+				        + R"(],"gravityFactor":)" + to_string_fp(motion.gravityFactor) + '}';
 				}
 
 				if (it->physicsRigidBody->trigger.has_value()) {
@@ -6594,7 +6594,7 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 							} else if(geometry.geometry.node.has_value()) {
 								json += R"("node":)" + std::to_string(*geometry.geometry.node) + ',';
 							}
-							json += R"("convexHull":)" + std::to_string(geometry.geometry.convexHull) + '}';
+							json += R"("convexHull":)" + std::string(geometry.geometry.convexHull ? "true" : "false") + '}';
 
 							if (geometry.collisionFilter.has_value()) {
 								json += R"(,"collisionFilter":)" + std::to_string(*geometry.collisionFilter);
@@ -6618,7 +6618,7 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 					const auto& joint = *it->physicsRigidBody->joint;
 					json += R"("joint":{"connectedNode":)" + std::to_string(joint.connectedNode)
 				        + R"(,"joint":)" + std::to_string(joint.joint)
-				        + R"(,"enableCollision":)" + std::to_string(joint.enableCollision) + '}';
+				        + R"(,"enableCollision":)" + std::string(joint.enableCollision ? "true" : "false") + '}';
 				}
 
 				if (it->physicsRigidBody->collider.has_value()) {
@@ -6632,7 +6632,7 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 					} else if (collider.geometry.node.has_value()) {
 						json += R"("node":)" + std::to_string(*collider.geometry.node) + ',';
 					}
-					json += R"("convexHull":)" + std::to_string(collider.geometry.convexHull) + '}';
+					json += R"("convexHull":)" + std::string(collider.geometry.convexHull ? "true" : "false") + '}';
 
 					if (collider.physicsMaterial.has_value()) {
 						json += R"(,"physicsMaterial":)" + std::to_string(*collider.physicsMaterial);
@@ -6642,6 +6642,7 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 					}
 					json += '}';
 				}
+				json += '}';
 			}
 #endif
 
-- 
2.43.0


From 7524442c3f4fd238ea79562e7b4f974eb77ab110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 34/68] fix: no leading comma before the name of an otherwise
 empty texture

---
 src/fastgltf.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index f12dbea..61c8c66 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6861,8 +6861,10 @@ void fg::Exporter::writeTextures(const Asset& asset, std::string& json) {
 			}
 		}
 
-		if (!it->name.empty())
-			json += R"(,"name":")" + fg::escapeString(it->name) + '"';
+		if (!it->name.empty()) {
+			if (json.back() != '{') json += ',';
+			json += R"("name":")" + fg::escapeString(it->name) + '"';
+		}
 		json += '}';
 		if (uabs(std::distance(asset.textures.begin(), it)) + 1 <asset.textures.size())
 			json += ',';
-- 
2.43.0


From b8f9c3e06e183b1a0c7936a39a61399dcb0c7b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 35/68] fix: separate the members of collision filters with
 commas

---
 src/fastgltf.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 61c8c66..16b90e9 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7022,11 +7022,10 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			}
 			json += ']';
 		}
-		if (json.back() == ']') {
-			json += ',';
-		}
-
 		if (!filter.collideWithSystems.empty()) {
+			if (json.back() != '{') {
+				json += ',';
+			}
 			json += R"("collideWithSystems":[)";
 			for (auto systemIt = filter.collideWithSystems.begin(); systemIt != filter.collideWithSystems.end(); ++systemIt) {
 				json += '"';
@@ -7039,11 +7038,10 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			}
 			json += ']';
 		}
-		if (json.back() == ']') {
-			json += ',';
-		}
-
 		if (!filter.notCollideWithSystems.empty()) {
+			if (json.back() != '{') {
+				json += ',';
+			}
 			json += R"("notCollideWithSystems":[)";
 			for (auto systemIt = filter.notCollideWithSystems.begin(); systemIt != filter.notCollideWithSystems.end(); ++systemIt) {
 				json += '"';
-- 
2.43.0


From a7d9dd6fdcb2d0cff844a885aeaff76f95b32935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 36/68] fix: pass Category::CollisionFilters to the extras
 callback for collision filters

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 16b90e9..9481670 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7056,7 +7056,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 		}
 
 		if (extrasWriteCallback != nullptr) {
-			auto extras = extrasWriteCallback(uabs(std::distance(asset.collisionFilters.begin(), it)), fastgltf::Category::Shapes, userPointer);
+			auto extras = extrasWriteCallback(uabs(std::distance(asset.collisionFilters.begin(), it)), fastgltf::Category::CollisionFilters, userPointer);
 			if (extras.has_value()) {
 				if (json.back() != '{') {
 					json += ',';
-- 
2.43.0


From b33f86524e99707183a68a3cb6d891a9981cf3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 37/68] fix: escapeString() covers every character, and escapes
 control characters

---
 src/fastgltf.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 9481670..3882a3f 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5318,25 +5318,32 @@ void fg::prettyPrintJson(std::string& json) {
 namespace fastgltf {
 	static void escapeString(std::string& string) {
 		std::size_t i = 0;
-		do {
+		while (i < string.size()) {
 			switch (string[i]) {
 				case '\"': {
 					constexpr std::string_view s = "\\\"";
 					string.replace(i, 1, s);
-					i += s.size();
+					i += s.size() - 1;
 					break;
 				}
 				case '\\': {
 					constexpr std::string_view s = "\\\\";
 					string.replace(i, 1, s);
-					i += s.size();
+					i += s.size() - 1;
 					break;
 				}
 				default:
+					// JSON does not allow any unescaped control characters inside of strings.
+					if (const auto c = static_cast<unsigned char>(string[i]); c < 0x20) {
+						constexpr std::string_view digits = "0123456789abcdef";
+						const std::array<char, 6> s {{ '\\', 'u', '0', '0', digits[c >> 4U], digits[c & 0xFU] }};
+						string.replace(i, 1, s.data(), s.size());
+						i += s.size() - 1;
+					}
 					break;
 			}
 			++i;
-		} while (i < string.size());
+		}
 	}
 
 	/**
-- 
2.43.0


From 310e5f7edb776a5a60e51a13a987e7ec5aa0d402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 38/68] fix: pretty printing finds the end of strings that end
 with a backslash

---
 src/fastgltf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 3882a3f..b0ccbad 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5286,7 +5286,9 @@ void fg::prettyPrintJson(std::string& json) {
             // Skip to the end of the string
             do {
                 ++i;
-                if (json[i] == '"' && json[i - 1] != '\\') {
+                if (json[i] == '\\') {
+                    ++i; // Skip the escaped character
+                } else if (json[i] == '"') {
                     break;
                 }
             } while (true);
-- 
2.43.0


From a4e66371e82cd9e5936d9117b2c28aedda33e0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 39/68] fix: use the .webp extension for exported webp images

---
 src/fastgltf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index b0ccbad..8baee33 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7275,6 +7275,9 @@ fs::path fg::Exporter::getImageFilePath(const Asset& asset, std::size_t index, M
 		case MimeType::DDS:
 			extension = ".dds";
 			break;
+		case MimeType::WEBP:
+			extension = ".webp";
+			break;
 		default:
 		case MimeType::None:
 		case MimeType::GltfBuffer:
-- 
2.43.0


From f34aae13c9f56696c26b54e3d30dd6327baa153d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 40/68] fix: an error of an earlier export does not fail later
 exports

---
 src/fastgltf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 8baee33..3388c63 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7362,6 +7362,7 @@ std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
 fg::Expected<fg::ExportResult<std::string>> fg::Exporter::writeGltfJson(const Asset& asset, ExportOptions _options) {
     bufferPaths.clear();
     imagePaths.clear();
+    errorCode = Error::None;
     options = _options;
 	exportingBinary = false;
 
@@ -7387,6 +7388,7 @@ fg::Expected<fg::ExportResult<std::string>> fg::Exporter::writeGltfJson(const As
 fg::Expected<fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBinary(const Asset& asset, ExportOptions _options) {
     bufferPaths.clear();
     imagePaths.clear();
+    errorCode = Error::None;
     options = _options;
 	exportingBinary = true;
 
-- 
2.43.0


From d8ff9b424f0eabb3b53442e7e8cc4e2f4039baef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 41/68] fix: honour ValidateAsset when exporting a binary glTF

---
 src/fastgltf.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 3388c63..40b98e7 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7394,6 +7394,12 @@ fg::Expected<fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBi
 
     options &= (~ExportOptions::PrettyPrintJson);
 
+    if (hasBit(options, ExportOptions::ValidateAsset)) {
+        if (const auto validation = validate(asset); validation != Error::None) {
+            return validation;
+        }
+    }
+
     ExportResult<std::vector<std::byte>> result;
     auto json = writeJson(asset);
     if (errorCode != Error::None) {
-- 
2.43.0


From 564953bfe07208acce36bea4d47d0a60a33b7e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 42/68] fix: report failures to write the main file

---
 src/fastgltf.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 40b98e7..2dd41ee 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7578,6 +7578,9 @@ fg::Error fg::FileExporter::writeGltfJson(const Asset& asset, const fs::path& ta
 
     file << result.output;
     file.close();
+    if (!file.good()) {
+        return Error::FailedWritingFiles;
+    }
 
 	if (!writeFiles(asset, result, target.parent_path())) {
 		return Error::FailedWritingFiles;
@@ -7607,6 +7610,10 @@ fg::Error fg::FileExporter::writeGltfBinary(const Asset& asset, const fs::path&
 
     file.write(reinterpret_cast<const char*>(result.output.data()),
                static_cast<std::streamsize>(result.output.size()));
+    file.close();
+    if (!file.good()) {
+        return Error::FailedWritingFiles;
+    }
 
 	if (!writeFiles(asset, result, target.parent_path())) {
 		return Error::FailedWritingFiles;
-- 
2.43.0


From c899baae39a9818df7286bfb879252124a2b083b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 43/68] fix: exporting to a file name without a folder

---
 src/fastgltf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 2dd41ee..e447ed0 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7557,7 +7557,7 @@ namespace fastgltf {
 } // namespace fastgltf
 
 fg::Error fg::FileExporter::writeGltfJson(const Asset& asset, const fs::path& target, const ExportOptions _options) {
-	if (std::error_code ec; !fs::exists(target.parent_path(), ec) || ec) {
+	if (std::error_code ec; target.has_parent_path() && (!fs::exists(target.parent_path(), ec) || ec)) {
 		fs::create_directory(target.parent_path(), ec);
 		if (ec) {
 			return Error::InvalidPath;
@@ -7589,7 +7589,7 @@ fg::Error fg::FileExporter::writeGltfJson(const Asset& asset, const fs::path& ta
 }
 
 fg::Error fg::FileExporter::writeGltfBinary(const Asset& asset, const fs::path& target, const ExportOptions _options) {
-	if (std::error_code ec; !fs::exists(target.parent_path(), ec) || ec) {
+	if (std::error_code ec; target.has_parent_path() && (!fs::exists(target.parent_path(), ec) || ec)) {
 		fs::create_directory(target.parent_path(), ec);
 		if (ec) {
 			return Error::InvalidPath;
-- 
2.43.0


From 432aba7c98ee3bfef38691eb23af8692240639f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 44/68] fix: write the MIME type of images with a URI

---
 src/fastgltf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index e447ed0..f2916e7 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5850,6 +5850,9 @@ void fg::Exporter::writeImages(const Asset& asset, std::string& json) {
 			},
 			[&](const sources::URI& uri) {
 				json += std::string(R"("uri":")") + fg::escapeString(uri.uri.string()) + '"';
+				if (uri.mimeType != MimeType::None) {
+					json += std::string(R"(,"mimeType":")") + std::string(getMimeTypeString(uri.mimeType)) + '"';
+				}
                 imagePaths.emplace_back(std::nullopt);
 			},
 		}, it->data);
-- 
2.43.0


From e5f10ea614b75ec98ff0e3cee4733bb56318ef3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 45/68] fix: do not read past the end of the variant mappings
 of a primitive

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index f2916e7..4ef187f 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6385,7 +6385,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
 				if (!itp->mappings.empty()) {
 					json += R"("KHR_materials_variants":{"mappings":[)";
 					// TODO: We should optimise to avoid writing multiple objects for the same material index
-					for (std::size_t i = 0; i < asset.materialVariants.size(); ++i) {
+					for (std::size_t i = 0; i < itp->mappings.size(); ++i) {
 						if (!itp->mappings[i].has_value())
 							continue;
 						if (json.back() == '}')
-- 
2.43.0


From 95b4c575029d208ddfd6562c9aaa18bee44b7975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:56 +0000
Subject: [PATCH 46/68] fix: escape every string the exporter writes

---
 src/fastgltf.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 4ef187f..5b70bbb 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6342,7 +6342,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
                 {
                     json += R"("attributes":{)";
                     for (auto ita = itp->attributes.begin(); ita != itp->attributes.end(); ++ita) {
-                        json += '"' + std::string(ita->name) + "\":" + std::to_string(ita->accessorIndex);
+                        json += '"' + fg::escapeString(ita->name) + "\":" + std::to_string(ita->accessorIndex);
                         if (uabs(std::distance(itp->attributes.begin(), ita)) + 1 <itp->attributes.size())
                             json += ',';
                     }
@@ -6363,7 +6363,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
             		for (auto itt = itp->targets.begin(); itt != itp->targets.end(); ++itt) {
 						json += '{';
 						for (auto ita = itt->begin(); ita != itt->end(); ++ita) {
-							json += '"' + std::string(ita->name) + "\":" + std::to_string(ita->accessorIndex);
+							json += '"' + fg::escapeString(ita->name) + "\":" + std::to_string(ita->accessorIndex);
 							if (uabs(std::distance(itt->begin(), ita)) + 1 < itt->size())
 								json += ',';
 						}
@@ -6402,7 +6402,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
 					json += R"("bufferView":)" + std::to_string(itp->dracoCompression->bufferView) + ',';
 					json += R"("attributes":{)";
 					for (auto ita = itp->dracoCompression->attributes.begin(); ita != itp->dracoCompression->attributes.end(); ++ita) {
-						json += '"' + std::string(ita->name) + "\":" + std::to_string(ita->accessorIndex);
+						json += '"' + fg::escapeString(ita->name) + "\":" + std::to_string(ita->accessorIndex);
 						if (uabs(std::distance(itp->dracoCompression->attributes.begin(), ita)) + 1 < itp->dracoCompression->attributes.size())
 							json += ',';
 					}
@@ -6560,7 +6560,7 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 			if (!it->instancingAttributes.empty()) {
 				json += R"("EXT_mesh_gpu_instancing":{"attributes":{)";
 				for (auto ait = it->instancingAttributes.begin(); ait != it->instancingAttributes.end(); ++ait) {
-					json += '"' + std::string(ait->name) + "\":" + std::to_string(ait->accessorIndex);
+					json += '"' + fg::escapeString(ait->name) + "\":" + std::to_string(ait->accessorIndex);
 					if (uabs(std::distance(it->instancingAttributes.begin(), ait)) + 1 <
 						it->instancingAttributes.size())
 						json += ',';
@@ -7025,7 +7025,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			json += R"("collisionSystems":[)";
 			for (auto systemIt = filter.collisionSystems.begin(); systemIt != filter.collisionSystems.end(); ++systemIt) {
 				json += '"';
-				json += *systemIt;
+				json += fg::escapeString(*systemIt);
 				json += '"';
 
 				if (uabs(std::distance(filter.collisionSystems.begin(), systemIt)) + 1 < filter.collisionSystems.size()) {
@@ -7041,7 +7041,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			json += R"("collideWithSystems":[)";
 			for (auto systemIt = filter.collideWithSystems.begin(); systemIt != filter.collideWithSystems.end(); ++systemIt) {
 				json += '"';
-				json += *systemIt;
+				json += fg::escapeString(*systemIt);
 				json += '"';
 
 				if (uabs(std::distance(filter.collideWithSystems.begin(), systemIt)) + 1 < filter.collideWithSystems.size()) {
@@ -7057,7 +7057,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			json += R"("notCollideWithSystems":[)";
 			for (auto systemIt = filter.notCollideWithSystems.begin(); systemIt != filter.notCollideWithSystems.end(); ++systemIt) {
 				json += '"';
-				json += *systemIt;
+				json += fg::escapeString(*systemIt);
 				json += '"';
 
 				if (uabs(std::distance(filter.notCollideWithSystems.begin(), systemIt)) + 1 < filter.notCollideWithSystems.size()) {
@@ -7247,7 +7247,7 @@ void fg::Exporter::writeExtensions(const fastgltf::Asset& asset, std::string& js
 		for (const auto& variant : asset.materialVariants) {
 			if (json.back() == '}')
 				json += ',';
-			json += R"({"name":")" + variant + "\"}";
+			json += R"({"name":")" + fg::escapeString(variant) + "\"}";
 		}
 		json += "]}";
 	}
@@ -7309,7 +7309,7 @@ std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
             outputString += R"("copyright":")" + fg::escapeString(asset.assetInfo->copyright) + "\",";
         if (!asset.assetInfo->generator.empty())
             outputString += R"("generator":")" + fg::escapeString(asset.assetInfo->generator) + "\",";
-        outputString += R"("version":")" + asset.assetInfo->gltfVersion + '"';
+        outputString += R"("version":")" + fg::escapeString(asset.assetInfo->gltfVersion) + '"';
     } else {
         outputString += R"("generator":"fastgltf",)";
         outputString += R"("version":"2.0")";
@@ -7321,7 +7321,7 @@ std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
 		if (outputString.back() != '{') outputString += ',';
 		outputString += "\"extensionsUsed\":[";
 		for (auto it = asset.extensionsUsed.begin(); it != asset.extensionsUsed.end(); ++it) {
-			outputString += '\"' + *it + '\"';
+			outputString += '\"' + fg::escapeString(*it) + '\"';
 			if (uabs(std::distance(asset.extensionsUsed.begin(), it)) + 1 <asset.extensionsUsed.size())
 				outputString += ',';
 		}
@@ -7331,7 +7331,7 @@ std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
 		if (outputString.back() != '{') outputString += ',';
 		outputString += "\"extensionsRequired\":[";
 		for (auto it = asset.extensionsRequired.begin(); it != asset.extensionsRequired.end(); ++it) {
-			outputString += '\"' + *it + '\"';
+			outputString += '\"' + fg::escapeString(*it) + '\"';
 			if (uabs(std::distance(asset.extensionsRequired.begin(), it)) + 1 <asset.extensionsRequired.size())
 				outputString += ',';
 		}
-- 
2.43.0


From 9521da7bb64c9b94e9a9a76c1b92a46e3ca546f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:58 +0000
Subject: [PATCH 47/68] fix: write inertiaDiagonal under the name that is read

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 5b70bbb..119a9b3 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6584,7 +6584,7 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 					}
 					json += R"(,"centerOfMass":[)" + to_string(motion.centerOfMass) + ']';
 					if (motion.inertialDiagonal.has_value()) {
-						json += R"(,"inertialDiagonal":[)" + to_string(*motion.inertialDiagonal) + ']';
+						json += R"(,"inertiaDiagonal":[)" + to_string(*motion.inertialDiagonal) + ']';
 					}
 					if (motion.inertialOrientation.has_value()) {
 						json += R"(,"inertialOrientation":[)" + to_string(*motion.inertialOrientation) + ']';
-- 
2.43.0


From c8ae070c3b2982f91eb4ac0ce63cd79ec5e91dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 48/68] fix: report only the categories that were parsed as
 available

---
 src/fastgltf.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 119a9b3..d7bd9b0 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1711,9 +1711,10 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 		}
 
 #define KEY_SWITCH_CASE(name, id) case force_consteval<crc32c(FASTGLTF_QUOTE(id))>:       \
-                if (hasBit(categories, Category::name))   \
+                if (hasBit(categories, Category::name)) { \
                     error = parse##name(array, asset);                     \
-                readCategories |= Category::name;         \
+                    readCategories |= Category::name;     \
+                }                                         \
                 break;
 
 		Error error = Error::None;
-- 
2.43.0


From e076b7a5ac309a7ac988c6ae8d488264c3e92bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 49/68] fix: report the categories of extensions as available

---
 src/fastgltf.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index d7bd9b0..1f5a172 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1758,7 +1758,7 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 #undef KEY_SWITCH_CASE
 	}
 
-	asset.availableCategories = readCategories;
+	asset.availableCategories |= readCategories;
 
 	if (hasBit(options, Options::GenerateMeshIndices)) {
 		if (auto error = generateMeshIndices(asset); error != Error::None) {
@@ -2581,6 +2581,7 @@ fg::Error fg::Parser::parseExtensions(const simdjson::dom::object& extensionsObj
 					if (auto shapesError = parseShapes(shapesArray, asset); shapesError != Error::None) FASTGLTF_UNLIKELY {
 						return shapesError;
 					}
+					asset.availableCategories |= Category::Shapes;
 				} else {
 					return Error::InvalidGltf;
 				}
@@ -2598,6 +2599,7 @@ fg::Error fg::Parser::parseExtensions(const simdjson::dom::object& extensionsObj
 					if (auto materialsError = parsePhysicsMaterials(materialsArray, asset); materialsError != Error::None) FASTGLTF_UNLIKELY {
 						return materialsError;
 					}
+					asset.availableCategories |= Category::PhysicsMaterials;
 				} else if (arrayError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 					return Error::InvalidGltf;
 				}
@@ -2607,6 +2609,7 @@ fg::Error fg::Parser::parseExtensions(const simdjson::dom::object& extensionsObj
 					if (auto filtersError = parseCollisionFilters(filtersArray, asset); filtersError != Error::None) FASTGLTF_UNLIKELY {
 						return filtersError;
 					}
+					asset.availableCategories |= Category::CollisionFilters;
 				} else if (arrayError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 					return Error::InvalidGltf;
 				}
@@ -2616,6 +2619,7 @@ fg::Error fg::Parser::parseExtensions(const simdjson::dom::object& extensionsObj
 					if (auto jointsError = parsePhysicsJoints(jointsArray, asset); jointsError != Error::None) FASTGLTF_UNLIKELY {
 						return jointsError;
 					}
+					asset.availableCategories |= Category::PhysicsJoints;
 				} else if (arrayError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 					return Error::InvalidGltf;
 				}
-- 
2.43.0


From 97cbac017d3196ad386555d51c0f6e4a2a03ce96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 50/68] fix: no default scene without scenes

---
 src/fastgltf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 1f5a172..8d72a6d 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1686,7 +1686,8 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 			if (object.value.get_uint64().get(defaultScene) != SUCCESS) FASTGLTF_UNLIKELY {
 				return Error::InvalidGltf;
 			}
-			asset.defaultScene = static_cast<std::size_t>(defaultScene);
+			if (hasBit(categories, Category::Scenes))
+				asset.defaultScene = static_cast<std::size_t>(defaultScene);
 			continue;
 		}
 
-- 
2.43.0


From dc612bafacdb6a9082ffb01032f789583d4e1312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 51/68] fix: drop the GLB buffer of an earlier load

---
 src/fastgltf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 8d72a6d..f26ce90 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5153,6 +5153,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfJson(GltfDataGetter& data, fs::path
 
 	options = _options;
 	directory = std::move(_directory);
+	glbBuffer = {};
 
 #if !defined(__ANDROID__)
     // If we never have to load the files ourselves, we're fine with the directory being invalid/blank.
@@ -5179,6 +5180,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 
 	options = _options;
 	directory = std::move(_directory);
+	glbBuffer = {};
 
     // If we never have to load the files ourselves, we're fine with the directory being invalid/blank.
     if (std::error_code ec; hasBit(options, Options::LoadExternalBuffers) && (!fs::is_directory(directory, ec) || ec)) {
-- 
2.43.0


From edcc2cc1dc6164daaf8770c971b1ee0804287690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 52/68] fix: keep the GLB buffer when the map callback returns
 no memory

---
 src/fastgltf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index f26ce90..087fea3 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5243,7 +5243,8 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 					}
 					glbBuffer = sources::CustomBuffer{info.customId, MimeType::None};
 				}
-			} else {
+			}
+			if (std::holds_alternative<std::monostate>(glbBuffer)) {
 				StaticVector<std::byte> binaryData(binaryChunk.chunkLength);
 				data.read(binaryData.data(), binaryChunk.chunkLength);
 
-- 
2.43.0


From 99d310d8490270905d53a828743e0b870c451566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 53/68] fix: check that the GLB headers and the JSON chunk fit

---
 src/fastgltf.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 087fea3..2403632 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5189,6 +5189,11 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 
 	data.reset();
 
+	// The header and the header of the JSON chunk are not optional.
+	if (data.totalSize() < sizeof(BinaryGltfHeader) + sizeof(BinaryGltfChunk)) {
+		return Error::InvalidGLB;
+	}
+
     auto header = readBinaryHeader(data);
     if (header.magic != binaryGltfHeaderMagic) {
 	    return Error::InvalidGLB;
@@ -5204,7 +5209,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
     //  1. JSON chunk
     //  2. BIN chunk (optional)
     auto jsonChunk = readBinaryChunk(data);
-    if (jsonChunk.chunkType != binaryGltfJsonChunkMagic || jsonChunk.chunkLength > data.totalSize() - sizeof(BinaryGltfHeader)) {
+    if (jsonChunk.chunkType != binaryGltfJsonChunkMagic || jsonChunk.chunkLength > data.totalSize() - sizeof(BinaryGltfHeader) - sizeof(BinaryGltfChunk)) {
 	    return Error::InvalidGLB;
     }
 
-- 
2.43.0


From eca3f887893b068e24c274518388b0a5eae86e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 54/68] fix: do not read more than there is to determine the
 file type

---
 src/fastgltf.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 2403632..e41fc72 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5098,15 +5098,18 @@ fg::Error fg::Parser::parsePhysicsRigidBody(simdjson::dom::object& khr_physics_r
 #pragma region Parser
 fg::GltfType fg::determineGltfFileType(GltfDataGetter& data) {
 	// We'll try and read a BinaryGltfHeader from the buffer to see if the magic is correct.
-	auto header = readBinaryHeader(data);
-	data.reset();
-	if (header.magic == binaryGltfHeaderMagic) {
-		return GltfType::GLB;
+	const auto totalSize = data.totalSize();
+	if (totalSize >= sizeof(BinaryGltfHeader)) {
+		auto header = readBinaryHeader(data);
+		data.reset();
+		if (header.magic == binaryGltfHeaderMagic) {
+			return GltfType::GLB;
+		}
 	}
 
 	// First, check if any of the first four characters is a '{'.
 	std::array<std::uint8_t, 4> begin = {};
-	data.read(begin.data(), begin.size());
+	data.read(begin.data(), std::min(begin.size(), totalSize));
 	data.reset();
 	for (const auto& i : begin) {
 		if (static_cast<char>(i) == ' ')
-- 
2.43.0


From 143bafc682efd6c0f05abedf97c774954d33c09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 55/68] fix: check a data URI before decoding it

---
 src/fastgltf.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index e41fc72..e1452f1 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -698,12 +698,18 @@ fg::Expected<fg::DataSource> fg::Parser::decodeDataUri(const URIView& uri) const
     auto mime = path.substr(0, mimeEnd);
 
     auto encodingEnd = path.find(',');
+    if (mimeEnd == std::string_view::npos || encodingEnd == std::string_view::npos || encodingEnd < mimeEnd) {
+		return Error::InvalidURI;
+    }
     auto encoding = path.substr(mimeEnd + 1, encodingEnd - mimeEnd - 1);
     if (encoding != "base64") {
 		return Error::InvalidURI;
     }
 
     auto encodedData = path.substr(encodingEnd + 1);
+    if (encodedData.empty() || encodedData.size() % 4 != 0) {
+		return Error::InvalidURI;
+    }
     if (config.mapCallback != nullptr) {
         // If a map callback is specified, we use a pointer to memory specified by it.
         auto padding = base64::getPadding(encodedData);
-- 
2.43.0


From d49c97c9b1d5baeb6af24f3040f935c540b278a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 56/68] fix: a base64 table for every byte value

---
 src/base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index fa50c46..442c64c 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -364,7 +364,7 @@ fg::StaticVector<std::uint8_t> fg::base64::neon_decode(std::string_view encoded)
 
 // clang-format off
 // ASCII value -> base64 value LUT
-static constexpr std::array<std::uint8_t, 128> base64lut = {
+static constexpr std::array<std::uint8_t, 256> base64lut = {
     0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,62,0,0,0,63,
     52, 53, 54, 55, 56, 57, 58, 59, 60, 61,
     0,0,0,0,0,0,0,
-- 
2.43.0


From 587b4c28100ca90323e0fa1c27888148fa23ffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 57/68] fix: leave enough output for the 16-byte stores of the
 SSE base64 decoder

---
 src/base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index 442c64c..68151cc 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -226,7 +226,7 @@ namespace fastgltf::base64 {
     // allocate any new memory to hold the encoded data and let the fallback decoder decode the
     // remaining data.
 	const auto encodedSize = encoded.size();
-	const auto alignedSize = encodedSize - (encodedSize % dataOutputSize);
+	const auto alignedSize = encodedSize - (encodedSize % dataSetSize);
     auto* out = output;
 
     // _mm_setr_epi8 accepts only 'char' but 0xff would overflow a signed char, which makes some compilers unhappy.
-- 
2.43.0


From b19b9b0d0f0b973ef6096414463a6bf4ebdb02d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 58/68] fix: close the file when fstat fails

---
 src/io.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io.cpp b/src/io.cpp
index 40a7eb1..eab5f0b 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -204,6 +204,7 @@ fg::MappedGltfFile::MappedGltfFile(const fs::path& path) noexcept : mappedFile(M
 	// Get the file size
 	struct stat statInfo {};
 	if (fstat(fd, &statInfo) != 0) {
+		close(fd);
 		error = Error::InvalidPath;
 		return;
 	}
-- 
2.43.0


From aba01d028989190c94a9e0a30982afa1eef2a988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 59/68] fix: self-assignment of a mapped file

---
 src/io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io.cpp b/src/io.cpp
index eab5f0b..6da41b5 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -245,6 +245,8 @@ fg::MappedGltfFile::MappedGltfFile(fastgltf::MappedGltfFile &&other) noexcept {
 }
 
 fg::MappedGltfFile& fg::MappedGltfFile::operator=(fastgltf::MappedGltfFile &&other) noexcept {
+	if (this == &other)
+		return *this;
 #if defined(_WIN32)
 	if (mappedFile != nullptr) {
 		UnmapViewOfFile(mappedFile);
-- 
2.43.0


From 8afe697fda22eafc96015f4757184f1db8053cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 60/68] fix: report a file that could not be read completely

---
 src/io.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io.cpp b/src/io.cpp
index 6da41b5..b400f69 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -63,6 +63,10 @@ fg::GltfDataBuffer::GltfDataBuffer(const fs::path& path) noexcept {
 	if (buffer != nullptr) {
 		// Copy the data and fill the padding region with zeros.
 		file.read(reinterpret_cast<std::ifstream::char_type*>(buffer.get()), static_cast<std::streamsize>(dataSize));
+		if (!file) {
+			error = Error::InvalidPath;
+			return;
+		}
 		std::memset(buffer.get() + dataSize, 0, allocatedSize - dataSize);
 	} else {
 		error = Error::FileBufferAllocationFailed;
-- 
2.43.0


From 3c1481ff925950996c38feaba6aba07245e61038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 61/68] fix: report an external file that could not be opened
 or read

---
 src/io.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/io.cpp b/src/io.cpp
index b400f69..651027c 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -452,6 +452,9 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri) const noe
 	}
 
 	std::ifstream file(path, std::ios::binary);
+	if (!file.is_open()) {
+		return Error::MissingExternalBuffer;
+	}
 
 	if (config.mapCallback != nullptr) {
 		auto info = config.mapCallback(static_cast<std::uint64_t>(length), config.userPointer);
@@ -461,6 +464,9 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri) const noe
 			if (config.unmapCallback != nullptr) {
 				config.unmapCallback(&info, config.userPointer);
 			}
+			if (!file) {
+				return Error::MissingExternalBuffer;
+			}
 
 			return { customBufferSource };
 		}
@@ -468,6 +474,9 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri) const noe
 
 	StaticVector<std::byte> data(static_cast<std::size_t>(length));
 	file.read(reinterpret_cast<char*>(data.data()), length);
+	if (!file) {
+		return Error::MissingExternalBuffer;
+	}
 	sources::Array arraySource {
 		std::move(data),
 	};
-- 
2.43.0


From 0be4520f4c2e93669f9241d289250ad58cfbeaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 62/68] fix: check the size of the buffer that is embedded into
 a GLB

---
 src/fastgltf.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index e1452f1..a3100c2 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7438,8 +7438,18 @@ fg::Expected<fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBi
 	// TODO: Add ExportOption enumeration for disabling this?
     const bool withEmbeddedBuffer = !asset.buffers.empty()
 			// We only support writing Vectors and ByteViews as embedded buffers
-			&& (std::holds_alternative<sources::Array>(asset.buffers.front().data) || std::holds_alternative<sources::ByteView>(asset.buffers.front().data) || std::holds_alternative<sources::Vector>(asset.buffers.front().data))
-			&& asset.buffers.front().byteLength < std::numeric_limits<decltype(BinaryGltfChunk::chunkLength)>::max();
+			&& (std::holds_alternative<sources::Array>(asset.buffers.front().data) || std::holds_alternative<sources::ByteView>(asset.buffers.front().data) || std::holds_alternative<sources::Vector>(asset.buffers.front().data));
+	if (withEmbeddedBuffer) {
+		const auto availableSize = std::visit(visitor {
+			[](auto&) -> std::size_t { return 0; },
+			[](const sources::Array& vector) -> std::size_t { return vector.bytes.size(); },
+			[](const sources::Vector& vector) -> std::size_t { return vector.bytes.size(); },
+			[](const sources::ByteView& view) -> std::size_t { return view.bytes.size(); },
+		}, asset.buffers.front().data);
+		if (asset.buffers.front().byteLength > availableSize) {
+			return Error::InvalidGltf;
+		}
+	}
 
     std::size_t binarySize = 0;
     binarySize += sizeof(BinaryGltfHeader); // glTF header
-- 
2.43.0


From 69ad078e9379c45841de58e3774a10ba97e4c463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 63/68] fix: escape draco attribute names when the memory pool
 is disabled

Without the memory pool the name is a std::string, for which overload
resolution picks the in-place escapeString.
---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index a3100c2..67882dd 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6425,7 +6425,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
 					json += R"("bufferView":)" + std::to_string(itp->dracoCompression->bufferView) + ',';
 					json += R"("attributes":{)";
 					for (auto ita = itp->dracoCompression->attributes.begin(); ita != itp->dracoCompression->attributes.end(); ++ita) {
-						json += '"' + fg::escapeString(ita->name) + "\":" + std::to_string(ita->accessorIndex);
+						json += '"' + fg::escapeString(std::string_view(ita->name)) + "\":" + std::to_string(ita->accessorIndex);
 						if (uabs(std::distance(itp->dracoCompression->attributes.begin(), ita)) + 1 < itp->dracoCompression->attributes.size())
 							json += ',';
 					}
-- 
2.43.0


From 087de55abdcd7b9971eb40aaaf57365d6041a660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 64/68] fix: reset the data before detecting the file type

---
 src/fastgltf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 67882dd..66a4c86 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5103,6 +5103,9 @@ fg::Error fg::Parser::parsePhysicsRigidBody(simdjson::dom::object& khr_physics_r
 
 #pragma region Parser
 fg::GltfType fg::determineGltfFileType(GltfDataGetter& data) {
+	// The data may have been read before, for example by an earlier load.
+	data.reset();
+
 	// We'll try and read a BinaryGltfHeader from the buffer to see if the magic is correct.
 	const auto totalSize = data.totalSize();
 	if (totalSize >= sizeof(BinaryGltfHeader)) {
-- 
2.43.0


From e3c1f18ba3c953a1398037bef4be5750af7e9a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 65/68] fix: reserve the padding behind a memory-mapped file

---
 src/io.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 651027c..558464a 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -213,11 +213,25 @@ fg::MappedGltfFile::MappedGltfFile(const fs::path& path) noexcept : mappedFile(M
 		return;
 	}
 
+	// Reserve memory for the file and for the padding, which simdjson is allowed to read.
+	const auto length = static_cast<std::size_t>(statInfo.st_size);
+	auto* memory = mmap(nullptr,
+						length + simdjson::SIMDJSON_PADDING,
+						PROT_READ,
+						MAP_PRIVATE | MAP_ANONYMOUS,
+						-1,
+						0);
+	if (memory == MAP_FAILED) {
+		close(fd);
+		error = Error::FileBufferAllocationFailed;
+		return;
+	}
+
 	// Map the file
-	mappedFile = mmap(nullptr,
-					  statInfo.st_size,
+	mappedFile = mmap(memory,
+					  length,
 					  PROT_READ,
-					  MAP_PRIVATE,
+					  MAP_PRIVATE | MAP_FIXED,
 					  fd,
 					  0);
 	if (mappedFile != MAP_FAILED) {
@@ -226,6 +240,7 @@ fg::MappedGltfFile::MappedGltfFile(const fs::path& path) noexcept : mappedFile(M
 		// Hint about map access
 		madvise(mappedFile, fileSize, MADV_SEQUENTIAL);
 	} else {
+		munmap(memory, length + simdjson::SIMDJSON_PADDING);
 		error = Error::FileBufferAllocationFailed;
 	}
 
@@ -268,7 +283,7 @@ fg::MappedGltfFile& fg::MappedGltfFile::operator=(fastgltf::MappedGltfFile &&oth
 	fileHandle = std::exchange(other.fileHandle, nullptr);
 #else
 	if (mappedFile != MAP_FAILED) {
-		munmap(mappedFile, fileSize);
+		munmap(mappedFile, fileSize + simdjson::SIMDJSON_PADDING);
 	}
 	mappedFile = std::exchange(other.mappedFile, MAP_FAILED);
 #endif
@@ -291,7 +306,7 @@ fg::MappedGltfFile::~MappedGltfFile() noexcept {
 	}
 #else
 	if (mappedFile != MAP_FAILED) {
-		munmap(mappedFile, fileSize);
+		munmap(mappedFile, fileSize + simdjson::SIMDJSON_PADDING);
 	}
 #endif
 }
-- 
2.43.0


From ff5413032df3cdd3efc75de2deeed6be06fb7020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:10 +0000
Subject: [PATCH 66/68] fix: stay inside of the string when parsing a URI

---
 src/fastgltf.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 66a4c86..56146fc 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -443,6 +443,10 @@ fg::URIView& fg::URIView::operator=(std::string_view other) {
 }
 
 void fg::URIView::parse() {
+	// Drop what is left of a previously parsed URI.
+	_scheme = _path = _userinfo = _host = _port = _query = _fragment = {};
+	_valid = true;
+
 	if (view.empty()) {
 		_valid = false;
 		return;
@@ -464,18 +468,20 @@ void fg::URIView::parse() {
 	if (startsWith(view.substr(idx), "//")) {
 		// URI has an authority part.
 		idx += 2;
-		auto nextSlash = view.find('/', idx);
+		// The authority ends at the next slash, or with the URI.
+		auto nextSlash = std::min(view.find('/', idx), view.size());
 		auto userInfo = view.find('@', idx);
 		if (userInfo != std::string::npos && userInfo < nextSlash) {
 			_userinfo = view.substr(idx, userInfo - idx);
 			idx += _userinfo.size() + 1;
 		}
 
-		auto hostEnd = nextSlash - 1;
+		auto hostEnd = nextSlash;
 		std::size_t portColon;
-		if (view[idx] == '[') {
+		const auto isIPv6 = idx < nextSlash && view[idx] == '[';
+		if (isIPv6) {
 			hostEnd = view.find(']', idx);
-			if (hostEnd == std::string::npos) {
+			if (hostEnd == std::string::npos || hostEnd > nextSlash) {
 				_valid = false;
 				return;
 			}
@@ -486,12 +492,13 @@ void fg::URIView::parse() {
 			portColon = view.find(':', idx);
 		}
 
-		if (portColon != std::string::npos) {
+		if (portColon != std::string::npos && portColon < nextSlash) {
 			_host = view.substr(idx, portColon - idx);
 			++portColon; // We don't want to include the colon in the port string.
 			_port = view.substr(portColon, nextSlash - portColon);
 		} else {
-			++idx;
+			if (isIPv6)
+				++idx; // Skip the opening bracket.
 			_host = view.substr(idx, hostEnd - idx);
 		}
 
-- 
2.43.0


From 419d6454b10ecc244f1d5c54de58f634c1a16139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:10 +0000
Subject: [PATCH 67/68] fix: do not read past a percent sign at the end of a
 URI

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 56146fc..e02f56f 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -661,7 +661,7 @@ void fg::URI::readjustViews(const URIView& other) {
 
 void fg::URI::decodePercents(std::string& x) noexcept {
 	for (std::size_t i = 0; i < x.size(); ++i) {
-		if (x[i] != '%')
+		if (x[i] != '%' || x.size() - i < 3)
 			continue;
 
 		// Read the next two chars and store them
-- 
2.43.0


From 90befd6a5df374a1911c662ea8ea1678de0aa3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:29 +0000
Subject: [PATCH 68/68] fix: copying or moving a URI transfers every component

---
 src/fastgltf.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index e02f56f..d745cee 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -433,6 +433,7 @@ fg::URIView& fg::URIView::operator=(const URIView& other) {
 	_port = other._port;
 	_query = other._query;
 	_fragment = other._fragment;
+	_valid = other._valid;
 	return *this;
 }
 
@@ -626,13 +627,13 @@ fg::URI& fg::URI::operator=(const URIView& other) {
 }
 
 fg::URI& fg::URI::operator=(URI&& other) noexcept {
+	if (this == &other) {
+		return *this;
+	}
+
 	auto* oldData = other.uri.data();
 	uri = std::move(other.uri);
 
-	// Invalidate the previous URI's view.
-	view._valid = other.view._valid;
-	other.view._valid = false;
-
 	if (uri.data() != oldData) {
 		// Allocation changed, we need to readjust views
 		readjustViews(other.view);
@@ -640,6 +641,10 @@ fg::URI& fg::URI::operator=(URI&& other) noexcept {
 		// No reallocation happened, we can safely copy the view.
 		view = other.view;
 	}
+
+	// Invalidate the previous URI's view.
+	other.view = URIView();
+	other.view._valid = false;
 	return *this;
 }
 
@@ -648,6 +653,11 @@ fg::URI::operator fg::URIView() const noexcept {
 }
 
 void fg::URI::readjustViews(const URIView& other) {
+	if (&other != &view) {
+		// Drop the views into the previous string.
+		view = URIView();
+		view._valid = other._valid;
+	}
 	if (!other._scheme.empty())   { view._scheme     = std::string_view(uri.data() + (other._scheme.data()     - other.view.data()), other._scheme.size()); }
 	if (!other._path.empty())     { view._path       = std::string_view(uri.data() + (other._path.data()       - other.view.data()), other._path.size()); }
 	if (!other._userinfo.empty()) { view._userinfo   = std::string_view(uri.data() + (other._userinfo.data()   - other.view.data()), other._userinfo.size()); }
-- 
2.43.0

