From 634a04dedd5a4dce51cc5da1c43a6af15796b6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 01/22] hooks: gradient accessors for verification, guarded by
 cfg(vp_hooks)

---
 src/layer.rs                 | 6 ++++++
 src/layer/convolutional.rs   | 5 +++++
 src/layer/fully_connected.rs | 5 +++++
 src/network.rs               | 6 ++++++
 4 files changed, 22 insertions(+)

diff --git a/src/layer.rs b/src/layer.rs
index 2dd4fea..8236256 100644
--- a/src/layer.rs
+++ b/src/layer.rs
@@ -72,4 +72,10 @@ pub trait Layer {
         self: &mut Self,
         serial_data: &SerializedLayer,
     ) -> Result<(), &'static str>;
+
+    // Verification hook: the accumulated gradients, one per parameter tensor
+    #[cfg(vp_hooks)]
+    fn vp_gradients(self: &Self) -> Vec<Tensor> {
+        return vec![];
+    }
 }
diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index da6669c..bcff144 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -326,6 +326,11 @@ impl Layer for ConvolutionalLayer {
             }
         }
     }
+
+    #[cfg(vp_hooks)]
+    fn vp_gradients(self: &Self) -> Vec<Tensor> {
+        return [&self.kernel_gradients[..], &self.bias_gradients[..]].concat();
+    }
 }
 
 #[cfg(test)]
diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 41bf0ed..d97a5f3 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -271,6 +271,11 @@ impl Layer for FullyConnectedLayer {
             }
         }
     }
+
+    #[cfg(vp_hooks)]
+    fn vp_gradients(self: &Self) -> Vec<Tensor> {
+        return vec![self.weights_gradients.clone(), self.bias_gradients.clone()];
+    }
 }
 
 #[cfg(test)]
diff --git a/src/network.rs b/src/network.rs
index f8e5557..8571fe9 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -288,6 +288,12 @@ impl Network {
         }
         return Ok(&self.intermediate_states.last().unwrap());
     }
+
+    // Verification hook: the gradients at the layer boundaries
+    #[cfg(vp_hooks)]
+    pub fn vp_boundary_gradients(self: &Self) -> &Vec<Tensor> {
+        return &self.intermediate_gradients;
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 416a3307e4c826545c3c5bc5f52e64d8abb2f9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:40 +0000
Subject: [PATCH 02/22] fix: switch_to_inference puts the network in inference
 mode

---
 src/network.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network.rs b/src/network.rs
index 8571fe9..8600232 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -195,7 +195,7 @@ impl Network {
         }
     }
     pub fn switch_to_inference(&mut self) {
-        self.run_state = NetworkRunState::Training;
+        self.run_state = NetworkRunState::Inference;
         for layer in self.layers.iter_mut() {
             layer.switch_to_inference();
         }
-- 
2.43.0


From 24d845e95f928e0d91a511f2cd33bcbf99252e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:07 +0000
Subject: [PATCH 03/22] fix: convolution input gradient covers exactly the
 outputs that used a position

---
 src/tensor/operations/convolution.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/tensor/operations/convolution.rs b/src/tensor/operations/convolution.rs
index b695c8f..dc58bd1 100644
--- a/src/tensor/operations/convolution.rs
+++ b/src/tensor/operations/convolution.rs
@@ -215,15 +215,13 @@ pub fn convolution_backprop_outgoing_gradient(
                 for k in 0..incoming_gradient_shape.dk {
                     let kernel = &(kernels[k as usize]);
                     let kernel_shape = kernel.get_shape();
-                    let i_start = (a as i32 - kernel_shape.di as i32) / stride as i32 + 1;
-                    // Now converting to unsigned
-                    let i_start = i_start.max(0) as u32;
+                    // The first output whose kernel position still reaches a (rounded up)
+                    let i_start = ((a + 1).max(kernel_shape.di) - kernel_shape.di + stride - 1) / stride;
                     let mut i_stop = a / stride + 1;
-                    i_stop = i_stop.min(kernel_shape.di);
-                    let j_start = (b as i32 - kernel_shape.dj as i32) / stride as i32 + 1;
-                    let j_start = j_start.max(0) as u32;
+                    i_stop = i_stop.min(incoming_gradient_shape.di);
+                    let j_start = ((b + 1).max(kernel_shape.dj) - kernel_shape.dj + stride - 1) / stride;
                     let mut j_stop = b / stride + 1;
-                    j_stop = j_stop.min(kernel_shape.dj);
+                    j_stop = j_stop.min(incoming_gradient_shape.dj);
                     for j in j_start..j_stop {
                         for i in i_start..i_stop {
                             let incoming_gradient_id = incoming_gradients
-- 
2.43.0


From 3f87cd66b1154203349e82ee01b068c51bbb7706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 04/22] fix: convolution kernel gradient uses only its own
 output channel

---
 src/tensor/operations/convolution.rs | 30 +++++++++++++++-------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/tensor/operations/convolution.rs b/src/tensor/operations/convolution.rs
index dc58bd1..08f03fa 100644
--- a/src/tensor/operations/convolution.rs
+++ b/src/tensor/operations/convolution.rs
@@ -275,20 +275,22 @@ pub fn convolution_backprop_kernel(
                 let mut convolution_result: f32 = 0.0;
 
                 // Loop over incoming gradient dimensions and multiply - add
-                for k in 0..result_shape.dk {
-                    for j in 0..result_shape.dj {
-                        for i in 0..result_shape.di {
-                            let incoming_gradient_id = incoming_gradients
-                                .get_data_index(&TensorIndex { i: i, j: j, k: k })
-                                as usize;
-                            let image_id = image.get_data_index(&TensorIndex {
-                                i: l + i * stride,
-                                j: m + j * stride,
-                                k: n,
-                            }) as usize;
-                            convolution_result += image.data[image_id]
-                                * incoming_gradients.data[incoming_gradient_id];
-                        }
+                for j in 0..result_shape.dj {
+                    for i in 0..result_shape.di {
+                        let incoming_gradient_id = incoming_gradients
+                            .get_data_index(&TensorIndex {
+                                i: i,
+                                j: j,
+                                k: kernel_channel,
+                            })
+                            as usize;
+                        let image_id = image.get_data_index(&TensorIndex {
+                            i: l + i * stride,
+                            j: m + j * stride,
+                            k: n,
+                        }) as usize;
+                        convolution_result += image.data[image_id]
+                            * incoming_gradients.data[incoming_gradient_id];
                     }
                 }
                 let kernel_gradient_id =
-- 
2.43.0


From 1be055d9ffede2a9417e7b6b40e9bfc7f083edc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 05/22] fix: a zero stride or a window larger than the image
 does not fit instead of panicking

---
 src/tensor.rs                        | 11 +++++++++++
 src/tensor/operations/convolution.rs |  8 ++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/tensor.rs b/src/tensor.rs
index fa0498a..fa5b6c9 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -449,6 +449,12 @@ impl Tensor {
         kernel_shape: &TensorShape,
         stride: u32,
     ) -> bool {
+        if stride == 0 {
+            return false;
+        }
+        if kernel_shape.di > image_shape.di || kernel_shape.dj > image_shape.dj {
+            return false;
+        }
         if (image_shape.di - kernel_shape.di) % stride != 0 {
             return false;
         }
@@ -485,6 +491,11 @@ impl Tensor {
             return false;
         }
 
+        // A mask larger than the image or a zero stride never fits
+        if stride == 0 || mask_shape.di > image_shape.di || mask_shape.dj > image_shape.dj {
+            return false;
+        }
+
         // Check if the mask fitst in the image given the stride
         // We assume that the image is properly padded
         if (image_shape.di - mask_shape.di) % stride != 0 {
diff --git a/src/tensor/operations/convolution.rs b/src/tensor/operations/convolution.rs
index 08f03fa..a77407d 100644
--- a/src/tensor/operations/convolution.rs
+++ b/src/tensor/operations/convolution.rs
@@ -16,6 +16,14 @@ pub fn check_convolution_dimensions(
         return Err("Third dimension of image and shpe don't match");
     }
 
+    // A kernel larger than the image or a zero stride never fits
+    if stride == 0 {
+        return Err("Stride must be at least 1");
+    }
+    if kernel_shape.di > image_shape.di || kernel_shape.dj > image_shape.dj {
+        return Err("Kernel is larger than the image");
+    }
+
     // Check if the kernel fitst in the image given the stride
     // We assume that the image is properly padded
     if (image_shape.di - kernel_shape.di) % stride != 0 {
-- 
2.43.0


From deb4c95a1cd984b8a77ec6ee3606f8792b0f64dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 06/22] fix: add_from_index_list checks all indices before
 adding

---
 src/tensor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index fa5b6c9..0ad8b61 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -159,10 +159,10 @@ impl Tensor {
             return Err("Index list is too long");
         }
         let t2_items = tensor2.get_shape().total_size();
+        if index_list.iter().any(|t2_index| *t2_index >= t2_items) {
+            return Err("Tensor 2 index out of bounds");
+        }
         for (t1_index, t2_index) in index_list.iter().enumerate() {
-            if *t2_index >= t2_items {
-                return Err("Tensor 2 index out of bounds");
-            }
             tensor2.data[*t2_index as usize] += tensor1.data[t1_index]
         }
 
-- 
2.43.0


From e7cdba63f1723c41cfff626ca30af44b51f4a058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 07/22] fix: the origin of a pooled element always lies in its
 window

---
 src/tensor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index 0ad8b61..6f1f376 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -576,7 +576,12 @@ impl Tensor {
 
                     let output_ti = TensorIndex { i: i, j: j, k: k };
                     let output_index = result.get_data_index(&output_ti);
-                    let mut input_index: u32 = 0;
+                    // Start from the first element of this window
+                    let mut input_index: u32 = image.get_data_index(&TensorIndex {
+                        i: i * stride,
+                        j: j * stride,
+                        k,
+                    });
 
                     for jj in 0..mask_shape.dj {
                         for ii in 0..mask_shape.di {
-- 
2.43.0


From 9285cab0ab64d28c26e6d21adea132c0b0229bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 08/22] fix: softmax stays finite for large inputs

---
 src/tensor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index 6f1f376..e76cb0f 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -607,9 +607,11 @@ impl Tensor {
 
     pub fn softmax(input: &Tensor, output: &mut Tensor) {
         if input.get_shape() == output.get_shape() {
+            // Only differences to the largest item matter, this avoids overflow and underflow
+            let max = input.data.iter().cloned().fold(f32::NEG_INFINITY, f32::max);
             let mut sum = 0.0;
             for i in 0..input.data.len() {
-                let exp = input.data[i].exp();
+                let exp = (input.data[i] - max).exp();
                 output.data[i] = exp;
                 sum += exp;
             }
-- 
2.43.0


From 3b0722643f0d358ae754cea9055da2ae442900e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 09/22] fix: softmax gradient works for every shape

---
 src/layer/softmax.rs | 33 ++++++++++-----------------------
 src/tensor.rs        |  9 +++++++++
 2 files changed, 19 insertions(+), 23 deletions(-)

diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index 104f436..980765b 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -19,8 +19,7 @@ pub enum SoftMaxSerialKeys {
 pub struct SoftmaxLayer {
     shape: TensorShape,
     name: String,
-    intermediate1: Tensor,
-    intermediate2: Tensor,
+    intermediate: Tensor,
     run_state: NetworkRunState,
 }
 
@@ -39,8 +38,7 @@ impl SoftmaxLayer {
                 dk: 1,
             },
             name: String::from("Empty softmax layer"),
-            intermediate1: Tensor::empty(),
-            intermediate2: Tensor::empty(),
+            intermediate: Tensor::empty(),
             run_state: NetworkRunState::Inference,
         };
 
@@ -52,13 +50,11 @@ impl SoftmaxLayer {
             NetworkRunState::Inference => {
                 // Clean up all training related tensors
 
-                self.intermediate1 = Tensor::empty();
-                self.intermediate2 = Tensor::empty();
+                self.intermediate = Tensor::empty();
             }
             NetworkRunState::Training => {
                 // Allocate all tensors required for training
-                self.intermediate1 = Tensor::new(TensorShape::new_1d(1));
-                self.intermediate2 = Tensor::new(self.shape);
+                self.intermediate = Tensor::new(self.shape);
                 // Fill up all tensors with 0.0
                 self.clear_gradients();
             }
@@ -117,26 +113,18 @@ impl Layer for SoftmaxLayer {
         if self.run_state == NetworkRunState::Inference {
             return Err("Can only do backprop in training mode");
         }
-        // softmax Transoped @ incoming gradient -> yields 1x1x1 tensors
-        Tensor::matrix_multiply_transpose_first(
-            output,
-            incoming_gradient,
-            &mut self.intermediate1,
-        )?;
+        // softmax dot incoming gradient over the whole tensor -> yields a scalar
+        let dot_product = Tensor::inner_product(output, incoming_gradient)?;
 
-        // Invert
-        Tensor::scale_self(&mut self.intermediate1, -1.0);
-
-        // Multiply with output
-
-        Tensor::matrix_multiply(output, &self.intermediate1, &mut self.intermediate2);
+        // Invert and multiply with output
+        Tensor::scale(output, -dot_product, &mut self.intermediate);
 
         // Element wise multiplication for diagonal elements
         Tensor::multiply_elementwise(&output, incoming_gradient, outgoing_gradient);
 
         // Adding up both results
 
-        Tensor::add_to_self(outgoing_gradient, &self.intermediate2);
+        Tensor::add_to_self(outgoing_gradient, &self.intermediate);
 
         return Ok(());
     }
@@ -193,8 +181,7 @@ impl Layer for SoftmaxLayer {
     }
 
     fn clear_gradients(self: &mut Self) {
-        self.intermediate1.fill_with_value(0.0);
-        self.intermediate2.fill_with_value(0.0);
+        self.intermediate.fill_with_value(0.0);
     }
 }
 
diff --git a/src/tensor.rs b/src/tensor.rs
index e76cb0f..b91ad55 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -87,6 +87,15 @@ impl Tensor {
         return total.sqrt();
     }
 
+    // Sum of the products of corresponding elements
+    pub fn inner_product(tensor1: &Tensor, tensor2: &Tensor) -> Result<f32, &'static str> {
+        if tensor1.shape != tensor2.shape {
+            return Err("Shapes do not match for inner product");
+        }
+        let operants = tensor1.data.iter().zip(tensor2.data.iter());
+        return Ok(operants.map(|(op1, op2)| *op1 * *op2).sum());
+    }
+
     pub fn fill_with_uniform(&mut self, min: f32, max: f32) {
         let uniform_distribution = rand::distributions::Uniform::new_inclusive(min, max);
         let mut rng = rand::prelude::thread_rng();
-- 
2.43.0


From e111b7a0bf92340f74954cab7b0c18cdb2b9a464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 10/22] fix: convolutional and max pool layers refuse backward
 in inference mode

---
 src/layer/convolutional.rs | 3 +++
 src/layer/max_pool.rs      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index bcff144..d0d6088 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -233,6 +233,9 @@ impl Layer for ConvolutionalLayer {
         incoming_gradient: &Tensor,
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
+        if self.run_state == NetworkRunState::Inference {
+            return Err("Can only do backprop in training mode");
+        }
         // Relu backprop
         // This repurposes the relu mask
         tensor::Tensor::multiply_elementwise_self(&mut self.relu_mask, incoming_gradient);
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index d59b72a..557cb9b 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -171,6 +171,9 @@ impl Layer for MaxPoolLayer {
         incoming_gradient: &Tensor,
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
+        if self.run_state == NetworkRunState::Inference {
+            return Err("Can only do backprop in training mode");
+        }
         // Make sure the outgoing gradient is clean
         outgoing_gradient.fill_with_value(0.0);
         // Perform the backprop
-- 
2.43.0


From 5c7ab38adc858b6fc53d43d881f2b3d76120b044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 11/22] fix: convolutional layer backpropagates through its
 relu

---
 src/layer/convolutional.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index d0d6088..4fabc6e 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -237,8 +237,9 @@ impl Layer for ConvolutionalLayer {
             return Err("Can only do backprop in training mode");
         }
         // Relu backprop
-        // This repurposes the relu mask
-        tensor::Tensor::multiply_elementwise_self(&mut self.relu_mask, incoming_gradient);
+        // This keeps the relu mask intact for further backward passes
+        let mut masked_gradient = self.relu_mask.clone();
+        tensor::Tensor::multiply_elementwise_self(&mut masked_gradient, incoming_gradient);
 
         // Bias gradient
 
@@ -247,7 +248,7 @@ impl Layer for ConvolutionalLayer {
         // kernel gradients
         for i in 0..self.kernels.len() {
             tensor::operations::convolution::convolution_backprop_kernel(
-                incoming_gradient,
+                &masked_gradient,
                 input,
                 self.stride,
                 i as u32,
@@ -257,7 +258,7 @@ impl Layer for ConvolutionalLayer {
 
         // Outgoing gradient
         tensor::operations::convolution::convolution_backprop_outgoing_gradient(
-            incoming_gradient,
+            &masked_gradient,
             &self.kernels,
             self.stride,
             outgoing_gradient,
-- 
2.43.0


From e458f9ed847c32750af55d1ade21c4e3e259f7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 12/22] fix: fully connected backward no longer overwrites the
 relu mask

---
 src/layer/fully_connected.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index d97a5f3..235434e 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -174,14 +174,15 @@ impl Layer for FullyConnectedLayer {
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
         if self.run_state == NetworkRunState::Training {
-            // Apply the relu backrop
-            Tensor::multiply_elementwise_self(&mut self.relu_mask, incoming_gradient);
+            // Apply the relu backrop, keeping the mask intact for further backward passes
+            let mut masked_gradient = self.relu_mask.clone();
+            Tensor::multiply_elementwise_self(&mut masked_gradient, incoming_gradient);
 
             // bias gradient
-            Tensor::add_to_self(&mut self.bias_gradients, &self.relu_mask);
+            Tensor::add_to_self(&mut self.bias_gradients, &masked_gradient);
             // weights gradient
             Tensor::matrix_multiply_transpose_second(
-                &self.relu_mask,
+                &masked_gradient,
                 input,
                 &mut self.weights_gradients_intermediate,
             )?;
@@ -192,7 +193,7 @@ impl Layer for FullyConnectedLayer {
             // outgoing gradient
             Tensor::matrix_multiply_transpose_first(
                 &self.weights,
-                &self.relu_mask,
+                &masked_gradient,
                 outgoing_gradient,
             )?;
             return Ok(());
-- 
2.43.0


From 349e459092cadb0c26a79b1da9a51f540e55cb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 13/22] fix: convolutional layer computes its bias gradients

---
 src/layer/convolutional.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 4fabc6e..6a04688 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -1,5 +1,5 @@
 use super::SerializedLayer;
-use crate::tensor::helper::TensorShape;
+use crate::tensor::helper::{TensorIndex, TensorShape};
 use crate::tensor::{self, Tensor};
 use crate::{layer::Layer, network::NetworkRunState};
 use std::collections::HashMap;
@@ -242,6 +242,17 @@ impl Layer for ConvolutionalLayer {
         tensor::Tensor::multiply_elementwise_self(&mut masked_gradient, incoming_gradient);
 
         // Bias gradient
+        let gradient_shape = masked_gradient.get_shape();
+        for k in 0..self.bias_gradients.len() {
+            let mut bias_gradient = self.bias_gradients[k].get_item(&TensorIndex::zero());
+            for j in 0..gradient_shape.dj {
+                for i in 0..gradient_shape.di {
+                    let k = k as u32;
+                    bias_gradient += masked_gradient.get_item(&TensorIndex { i, j, k });
+                }
+            }
+            self.bias_gradients[k].fill_with_value(bias_gradient);
+        }
 
         // Biases don't affect gradient propagation
 
@@ -286,6 +297,9 @@ impl Layer for ConvolutionalLayer {
         for v in &mut self.kernel_gradients {
             v.fill_with_value(0.0);
         }
+        for v in &mut self.bias_gradients {
+            v.fill_with_value(0.0);
+        }
     }
 
     fn switch_to_inference(self: &mut Self) {
-- 
2.43.0


From 99db8ac320d8785ba4430c5f3e7cd068a21aae6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 14/22] fix: convolutional kernel gradients accumulate until
 cleared

---
 src/layer/convolutional.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 6a04688..063314b 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -258,13 +258,15 @@ impl Layer for ConvolutionalLayer {
 
         // kernel gradients
         for i in 0..self.kernels.len() {
+            let mut kernel_gradient = Tensor::new(self.kernels[i].get_shape());
             tensor::operations::convolution::convolution_backprop_kernel(
                 &masked_gradient,
                 input,
                 self.stride,
                 i as u32,
-                &mut self.kernel_gradients[i],
+                &mut kernel_gradient,
             )?;
+            Tensor::add_to_self(&mut self.kernel_gradients[i], &kernel_gradient);
         }
 
         // Outgoing gradient
-- 
2.43.0


From f405827d9c1e661284637f5688962cebfc2ae794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:18 +0000
Subject: [PATCH 15/22] fix: clearing gradients keeps what the last forward
 pass recorded

---
 src/layer/fully_connected.rs | 1 -
 src/layer/max_pool.rs        | 7 ++-----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 235434e..d852544 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -240,7 +240,6 @@ impl Layer for FullyConnectedLayer {
         self.weights_gradients_intermediate.fill_with_value(0.0);
         self.weights_gradients.fill_with_value(0.0);
         self.bias_gradients.fill_with_value(0.0);
-        self.relu_mask.fill_with_value(0.0);
     }
 
     fn get_serialized(self: &Self) -> SerializedLayer {
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index 557cb9b..2ec3477 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -227,11 +227,8 @@ impl Layer for MaxPoolLayer {
         }
     }
 
-    fn clear_gradients(self: &mut Self) {
-        for v in self.max_pool_origin.iter_mut() {
-            *v = 0;
-        }
-    }
+    // No parameters, so no gradients to clear
+    fn clear_gradients(self: &mut Self) {}
 
     fn switch_to_inference(self: &mut Self) {
         // Update run state
-- 
2.43.0


From 062ff0cbaa214a9093ef990e29a7c61289fd3aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 16/22] fix: convolutional layer checks kernel depth and biases
 when it is filled

---
 src/layer/convolutional.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 063314b..903e80b 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -113,6 +113,17 @@ impl ConvolutionalLayer {
                 return Err("All kernels in kernel list should have the same shape");
             }
         }
+        if kernel_shape.dk != input_shape.dk {
+            return Err("Third dimension of kernels and input shape don't match");
+        }
+        if biases.len() != kernels.len() {
+            return Err("There should be exactly 1 bias per kernel");
+        }
+        for b in &biases {
+            if b.get_shape() != TensorShape::new_1d(1) {
+                return Err("All biases should be 1x1x1 tensors");
+            }
+        }
         if !Tensor::does_kernel_stride_fit_image(&input_shape, &kernel_shape, stride) {
             return Err("Kernel does not fit in image with given stride");
         }
-- 
2.43.0


From 7336637deb71fc647d258a8079f08e258be010b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:35 +0000
Subject: [PATCH 17/22] fix: fully connected layer advertises the depth of its
 input

---
 src/layer/fully_connected.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index d852544..d27fcb7 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -210,7 +210,7 @@ impl Layer for FullyConnectedLayer {
         return TensorShape {
             di: self.weights.get_shape().dj,
             dj: 1,
-            dk: 1,
+            dk: self.weights.get_shape().dk,
         };
     }
 
-- 
2.43.0


From b4675298bbfee44e92159de007d48801407ecf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 18/22] fix: re-filling a layer in training mode refreshes its
 training buffers

---
 src/layer/convolutional.rs | 2 ++
 src/layer/max_pool.rs      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 903e80b..86545c0 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -147,6 +147,8 @@ impl ConvolutionalLayer {
         self.input_shape = input_shape;
         self.output_shape = output_shape;
         self.stride = stride;
+        // Update the helper tensors
+        self.update_gradient_and_intermediate_tensors();
         return Ok(());
     }
     fn load_from_serialized_data(
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index 2ec3477..b82eb65 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -99,6 +99,8 @@ impl MaxPoolLayer {
         self.mask_shape = mask_shape;
         self.stride = stride;
         self.name = name.clone();
+        // Update the origin tracker
+        self.update_gradient_and_intermediate_tensors();
 
         return Ok(());
     }
-- 
2.43.0


From e0886d623149585966decbddeb65cea1ad00bb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 19/22] fix: layers report tensors of the wrong shape instead
 of doing nothing

---
 src/layer.rs                 | 30 ++++++++++++++++++++++++++++++
 src/layer/convolutional.rs   |  4 +++-
 src/layer/fully_connected.rs |  4 +++-
 src/layer/max_pool.rs        |  6 ++++--
 src/layer/softmax.rs         |  4 +++-
 5 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/src/layer.rs b/src/layer.rs
index 8236256..a23d848 100644
--- a/src/layer.rs
+++ b/src/layer.rs
@@ -59,6 +59,36 @@ pub trait Layer {
         _incoming_gradient: &Tensor,
         _outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str>;
+    // Shape checks shared by all layers, a layer must not start work on tensors that do not fit
+    fn check_forward_shapes(
+        self: &Self,
+        input: &Tensor,
+        output: &Tensor,
+    ) -> Result<(), &'static str> {
+        if input.get_shape() != self.get_input_shape() {
+            return Err("Input shape does not match the layer");
+        }
+        if output.get_shape() != self.get_output_shape() {
+            return Err("Output shape does not match the layer");
+        }
+        return Ok(());
+    }
+    fn check_backward_shapes(
+        self: &Self,
+        input: &Tensor,
+        output: &Tensor,
+        incoming_gradient: &Tensor,
+        outgoing_gradient: &Tensor,
+    ) -> Result<(), &'static str> {
+        self.check_forward_shapes(input, output)?;
+        if incoming_gradient.get_shape() != self.get_output_shape() {
+            return Err("Incoming gradient shape does not match the layer");
+        }
+        if outgoing_gradient.get_shape() != self.get_input_shape() {
+            return Err("Outgoing gradient shape does not match the layer");
+        }
+        return Ok(());
+    }
     fn apply_gradients(self: &mut Self) {}
     fn clear_gradients(self: &mut Self);
     fn switch_to_training(self: &mut Self);
diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 86545c0..9351190 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -207,6 +207,7 @@ impl ConvolutionalLayer {
 
 impl Layer for ConvolutionalLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        self.check_forward_shapes(input, output)?;
         match self.run_state {
             NetworkRunState::Inference => {
                 // Do the fast single function version
@@ -242,10 +243,11 @@ impl Layer for ConvolutionalLayer {
     fn backward(
         self: &mut Self,
         input: &Tensor,
-        _output: &Tensor,
+        output: &Tensor,
         incoming_gradient: &Tensor,
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
+        self.check_backward_shapes(input, output, incoming_gradient, outgoing_gradient)?;
         if self.run_state == NetworkRunState::Inference {
             return Err("Can only do backprop in training mode");
         }
diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index d27fcb7..72a14d6 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -147,6 +147,7 @@ impl FullyConnectedLayer {
 
 impl Layer for FullyConnectedLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        self.check_forward_shapes(input, output)?;
         match self.run_state {
             NetworkRunState::Inference => {
                 // Take the faster multiply add relu in 1 go
@@ -169,10 +170,11 @@ impl Layer for FullyConnectedLayer {
     fn backward(
         self: &mut Self,
         input: &Tensor,
-        _output: &Tensor,
+        output: &Tensor,
         incoming_gradient: &Tensor,
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
+        self.check_backward_shapes(input, output, incoming_gradient, outgoing_gradient)?;
         if self.run_state == NetworkRunState::Training {
             // Apply the relu backrop, keeping the mask intact for further backward passes
             let mut masked_gradient = self.relu_mask.clone();
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index b82eb65..a77ea74 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -149,6 +149,7 @@ impl MaxPoolLayer {
 
 impl Layer for MaxPoolLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        self.check_forward_shapes(input, output)?;
         match self.run_state {
             NetworkRunState::Inference => {
                 Tensor::max_pool(input, &self.mask_shape, self.stride, output);
@@ -168,11 +169,12 @@ impl Layer for MaxPoolLayer {
 
     fn backward(
         self: &mut Self,
-        _input: &Tensor,
-        _output: &Tensor,
+        input: &Tensor,
+        output: &Tensor,
         incoming_gradient: &Tensor,
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
+        self.check_backward_shapes(input, output, incoming_gradient, outgoing_gradient)?;
         if self.run_state == NetworkRunState::Inference {
             return Err("Can only do backprop in training mode");
         }
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index 980765b..1cf7621 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -100,16 +100,18 @@ impl SoftmaxLayer {
 
 impl Layer for SoftmaxLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        self.check_forward_shapes(input, output)?;
         Tensor::softmax(input, output);
         return Ok(());
     }
     fn backward(
         self: &mut Self,
-        _input: &Tensor,
+        input: &Tensor,
         output: &Tensor,
         incoming_gradient: &Tensor,
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
+        self.check_backward_shapes(input, output, incoming_gradient, outgoing_gradient)?;
         if self.run_state == NetworkRunState::Inference {
             return Err("Can only do backprop in training mode");
         }
-- 
2.43.0


From d89c06a0c511d79c54044291bab9b2d28a98eb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 20/22] fix: a malformed layer record is an error instead of a
 panic

---
 src/layer/convolutional.rs   | 10 +++++-----
 src/layer/fully_connected.rs |  6 +++---
 src/layer/max_pool.rs        |  8 ++++----
 src/layer/softmax.rs         |  8 +++++---
 4 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 9351190..2edbbc9 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -176,30 +176,30 @@ impl ConvolutionalLayer {
             .get(&ConvolutionalSerialKeys::Kernels)
             .expect("Cannot access kernels data");
         let kernels: Vec<Tensor> =
-            bincode::deserialize(kernels_data).expect("Cannot deserialize kernels data");
+            bincode::deserialize(kernels_data).map_err(|_| "Cannot deserialize kernels data")?;
 
         let biases_data = data
             .get(&ConvolutionalSerialKeys::Biases)
             .expect("Cannot access biases data");
         let biases: Vec<Tensor> =
-            bincode::deserialize(biases_data).expect("Cannot deserialize biases data");
+            bincode::deserialize(biases_data).map_err(|_| "Cannot deserialize biases data")?;
 
         let input_shape_data = data
             .get(&ConvolutionalSerialKeys::InputShape)
             .expect("Cannot access input shape data");
         let input_shape: TensorShape =
-            bincode::deserialize(input_shape_data).expect("Cannot deserialize input shape data");
+            bincode::deserialize(input_shape_data).map_err(|_| "Cannot deserialize input shape data")?;
 
         let stride_data = data
             .get(&ConvolutionalSerialKeys::Stride)
             .expect("Cannot access stride data");
         let stride: u32 =
-            bincode::deserialize(&stride_data).expect("Cannot deserialize stride data");
+            bincode::deserialize(&stride_data).map_err(|_| "Cannot deserialize stride data")?;
 
         let name_data = data
             .get(&ConvolutionalSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
 
         return self.fill_from_state(kernels, biases, input_shape, stride, &name);
     }
diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 72a14d6..b1a944d 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -129,17 +129,17 @@ impl FullyConnectedLayer {
             .get(&FullyConnectedSerialKeys::Weights)
             .expect("Cannot access weigths shape data");
         let weights: Tensor =
-            bincode::deserialize(weights_data).expect("Cannot deserialize weights data");
+            bincode::deserialize(weights_data).map_err(|_| "Cannot deserialize weights data")?;
 
         let bias_data = data
             .get(&FullyConnectedSerialKeys::Bias)
             .expect("Cannot access input shape data");
-        let bias: Tensor = bincode::deserialize(bias_data).expect("Cannot deserialize bias data");
+        let bias: Tensor = bincode::deserialize(bias_data).map_err(|_| "Cannot deserialize bias data")?;
 
         let name_data = data
             .get(&FullyConnectedSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
 
         return self.fill_from_state(weights, bias, &name);
     }
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index a77ea74..055b294 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -127,22 +127,22 @@ impl MaxPoolLayer {
             .get(&MaxPoolSerialKeys::MaskShape)
             .expect("Cannot access mask shape data");
         let mask_shape: TensorShape =
-            bincode::deserialize(mask_shape_data).expect("Cannot deserialize mask shape data");
+            bincode::deserialize(mask_shape_data).map_err(|_| "Cannot deserialize mask shape data")?;
         let input_shape_data = data
             .get(&MaxPoolSerialKeys::InputShape)
             .expect("Cannot access input shape data");
         let input_shape: TensorShape =
-            bincode::deserialize(input_shape_data).expect("Cannot deserialize input shape data");
+            bincode::deserialize(input_shape_data).map_err(|_| "Cannot deserialize input shape data")?;
         let stride_data = data
             .get(&MaxPoolSerialKeys::Stride)
             .expect("Cannot access stride data");
         let stride: u32 =
-            bincode::deserialize(&stride_data).expect("Cannot deserialize stride data");
+            bincode::deserialize(&stride_data).map_err(|_| "Cannot deserialize stride data")?;
 
         let name_data = data
             .get(&MaxPoolSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
         return self.fill_from_state(input_shape, mask_shape, stride, &name);
     }
 }
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index 1cf7621..d2b038e 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -87,14 +87,16 @@ impl SoftmaxLayer {
         let shape_data = data
             .get(&SoftMaxSerialKeys::Shape)
             .expect("Cannot access shape data");
-        self.shape = bincode::deserialize(shape_data).expect("Cannot deserialize shape data");
+        let shape: TensorShape =
+            bincode::deserialize(shape_data).map_err(|_| "Cannot deserialize shape data")?;
 
         let name_data = data
             .get(&SoftMaxSerialKeys::Name)
             .expect("Cannot access name data");
-        self.name = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String =
+            bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
 
-        return Ok(());
+        return self.fill_from_state(shape, &name);
     }
 }
 
-- 
2.43.0


From f86260e6f28aa15ee6c807d8d7c5529cc8da3bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 21/22] fix: stored tensors are checked for consistency when
 they are read

---
 src/tensor.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/tensor.rs b/src/tensor.rs
index b91ad55..45b0ca8 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -10,12 +10,44 @@ use std::error::Error;
 use std::fs;
 
 #[derive(Debug, Clone, Serialize, Deserialize)]
+#[serde(try_from = "SerializedTensor")]
 pub struct Tensor {
     strides: TensorStride,
     shape: TensorShape,
     data: Vec<f32>,
 }
 
+// The stored form of a tensor, it only becomes a tensor when its parts are consistent
+#[derive(Deserialize)]
+struct SerializedTensor {
+    strides: TensorStride,
+    shape: TensorShape,
+    data: Vec<f32>,
+}
+
+impl TryFrom<SerializedTensor> for Tensor {
+    type Error = &'static str;
+
+    fn try_from(stored: SerializedTensor) -> Result<Tensor, &'static str> {
+        let shape = stored.shape;
+        let total_size = shape
+            .di
+            .checked_mul(shape.dj)
+            .and_then(|size| size.checked_mul(shape.dk));
+        if total_size.map(|size| size as usize) != Some(stored.data.len()) {
+            return Err("Stored data does not match the tensor shape");
+        }
+        if stored.strides != TensorStride::new_from_shape(&shape) {
+            return Err("Stored strides do not match the tensor shape");
+        }
+        return Ok(Tensor {
+            strides: stored.strides,
+            shape: shape,
+            data: stored.data,
+        });
+    }
+}
+
 impl PartialEq for Tensor {
     fn eq(&self, other: &Self) -> bool {
         if self.shape != other.shape {
-- 
2.43.0


From c0224b7b2ce280b6626cd5f6d252c21d3e23d7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 22/22] fix: a network file that cannot be loaded leaves the
 network as it was

---
 src/network.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/network.rs b/src/network.rs
index 8600232..f4e8593 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -95,10 +95,34 @@ impl Network {
     pub fn load_from_file(self: &mut Self, filename: &String) -> Result<(), Box<dyn Error>> {
         let file_content = fs::read(filename)?;
         let sn: SerializedNetwork = bincode::deserialize(&file_content)?;
-        sn.populate_network(self)?;
+        let number_of_layers = self.layers.len();
+        if let Err(msg) = sn.populate_network(self) {
+            // Remove the layers that were added before the error
+            self.truncate_layers(number_of_layers);
+            return Err(msg.into());
+        }
         return Ok(());
     }
 
+    // Keep only the first layers of the network
+    fn truncate_layers(self: &mut Self, number_of_layers: usize) {
+        self.layers.truncate(number_of_layers);
+        let number_of_states = match self.layers.last() {
+            Some(layer) => {
+                self.output_shape = layer.get_output_shape();
+                number_of_layers + 1
+            }
+            None => {
+                let empty_network = Network::new(self.run_state);
+                self.input_shape = empty_network.input_shape;
+                self.output_shape = empty_network.output_shape;
+                0
+            }
+        };
+        self.intermediate_states.truncate(number_of_states);
+        self.intermediate_gradients.truncate(number_of_states);
+    }
+
     pub fn add_layer<T: Layer + 'static>(
         self: &mut Self,
         mut layer: T,
-- 
2.43.0

