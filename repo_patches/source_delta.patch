From e6738469677623d9896392e5e76f383a12eb5ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:02 +0000
Subject: [PATCH 01/58] fix: make constraints 'x[I] = b' usable in an objective

ConstraintsIB called getATb()/addATb(), which only the zero right hand side
mixin has, so that a task derived from TaskIB did not compile.
---
 core/include/humoto/constraints.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/core/include/humoto/constraints.h b/core/include/humoto/constraints.h
index d2e2ae6..bc50a0b 100644
--- a/core/include/humoto/constraints.h
+++ b/core/include/humoto/constraints.h
@@ -981,7 +981,18 @@ namespace humoto
                 ConstraintsIB() {}
 
 
+                /// @copydoc humoto::constraints::BoundsB0Mixin::getATb
+                void addATb(Eigen::VectorXd &g) const
+                {
+                    for (EigenIndex i = 0; i < getIndices().rows(); ++i)
+                    {
+                        g[getIndices()[i]] += getB()[i];
+                    }
+                }
+
+
             public:
+                using HUMOTO_PARENT_CLASS_SHORTHAND::getNumberOfVariables;
                 using HUMOTO_PARENT_CLASS_SHORTHAND::getIndices;
                 using HUMOTO_PARENT_CLASS_SHORTHAND::getB;
 
@@ -1006,7 +1017,8 @@ namespace humoto
                 void getATAandATb(Eigen::MatrixXd &H, Eigen::VectorXd &g) const
                 {
                     HUMOTO_PARENT_CLASS_SHORTHAND::getATA(H);
-                    HUMOTO_PARENT_CLASS_SHORTHAND::getATb(g);
+                    g.setZero(getNumberOfVariables());
+                    addATb(g);
                 }
 
 
@@ -1014,7 +1026,7 @@ namespace humoto
                 void addATAandATb(Eigen::MatrixXd &H, Eigen::VectorXd &g) const
                 {
                     HUMOTO_PARENT_CLASS_SHORTHAND::addATA(H);
-                    HUMOTO_PARENT_CLASS_SHORTHAND::addATb(g);
+                    addATb(g);
                 }
         };
 #undef HUMOTO_PARENT_CLASS_SHORTHAND
-- 
2.43.0


From d777722bccdd446661130896f28a81d244a35f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:45 +0000
Subject: [PATCH 02/58] fix: drop constraints of the previous problem when a QP
 has none

getQPProblem() did not touch the constraints when the hierarchy had one level,
so that a reused QP problem (e.g. in a solver) kept the constraints of the
previous one.
---
 core/include/humoto/hierarchy.h  |  5 +++++
 core/include/humoto/qp_problem.h | 36 ++++++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/core/include/humoto/hierarchy.h b/core/include/humoto/hierarchy.h
index 131c12f..475d0c9 100644
--- a/core/include/humoto/hierarchy.h
+++ b/core/include/humoto/hierarchy.h
@@ -344,6 +344,11 @@ namespace humoto
                 {
                     qp_problem.initializeConstraints(hierarchy_[0], sol_structure);
                 }
+                else
+                {
+                    // the same instance may have been used for a constrained problem
+                    qp_problem.resetConstraints(sol_structure);
+                }
             }
     };
 }
diff --git a/core/include/humoto/qp_problem.h b/core/include/humoto/qp_problem.h
index 65e82ab..4e01bcb 100644
--- a/core/include/humoto/qp_problem.h
+++ b/core/include/humoto/qp_problem.h
@@ -232,6 +232,19 @@ namespace humoto
             }
 
 
+            /**
+             * @brief Initialize empty constraints
+             *
+             * @param[in] sol_structure  structure of the solution
+             */
+            void resetConstraints(const humoto::SolutionStructure & sol_structure)
+            {
+                general_constraints_.reset(0, sol_structure.getNumberOfVariables());
+                bounds_.reset(0, sol_structure.getNumberOfVariables());
+                bounds_.initializeSolutionBounds(lb_, ub_);
+            }
+
+
             /**
              * @brief get container with simple bounds
              *
@@ -321,6 +334,18 @@ namespace humoto
             }
 
 
+            /**
+             * @brief Initialize empty constraints
+             *
+             * @param[in] sol_structure  structure of the solution
+             */
+            void resetConstraints(const humoto::SolutionStructure & sol_structure)
+            {
+                equality_constraints_.reset(0, sol_structure.getNumberOfVariables());
+                inequality_constraints_.reset(0, sol_structure.getNumberOfVariables());
+            }
+
+
             /**
              * @brief get container with inequalities
              *
@@ -386,6 +411,17 @@ namespace humoto
             }
 
 
+            /**
+             * @brief Initialize empty constraints
+             *
+             * @param[in] sol_structure  structure of the solution
+             */
+            void resetConstraints(const humoto::SolutionStructure & sol_structure)
+            {
+                equality_constraints_.reset(0, sol_structure.getNumberOfVariables());
+            }
+
+
             /**
              * @brief get container with equalities
              *
-- 
2.43.0


From 97cb58cd575f8b106232ab362741f21c2a25b80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:13 +0000
Subject: [PATCH 03/58] fix: do not check a stale active set guess of a task

A problem formed with an active set guess could not be formed without the
guess afterwards if the number of constraints in one of its tasks changed.
---
 core/include/humoto/task.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/include/humoto/task.h b/core/include/humoto/task.h
index 2ba3e0c..466d48f 100644
--- a/core/include/humoto/task.h
+++ b/core/include/humoto/task.h
@@ -45,6 +45,8 @@ namespace humoto
             {
                 is_modified_ = true;
 
+                // guess for the previous problem may have a different size
+                active_set_guess_.reset();
                 setNumberOfVariables(number_of_variables);
             }
 
-- 
2.43.0


From 330518f2659572926bab21068d8f3e47a967d44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:02 +0000
Subject: [PATCH 04/58] fix: apply a changed gain of the 'zero variables' task

The gains vector was formed only when the location of the variables
changed, so a gain changed in between was ignored.
---
 core/include/humoto/task_generic.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/include/humoto/task_generic.h b/core/include/humoto/task_generic.h
index 315a347..d88b73d 100644
--- a/core/include/humoto/task_generic.h
+++ b/core/include/humoto/task_generic.h
@@ -91,7 +91,8 @@ namespace humoto
                 }
 
 
-                if ( location_of_variables != location_of_variables_ )
+                if ( (location_of_variables != location_of_variables_)
+                        || ((location_of_variables_.length_ > 0) && (getIGains()[0] != getGain())) )
                 {
                     // Task was modified
                     location_of_variables_ = location_of_variables;
-- 
2.43.0


From dfc8f63540a438a98c1ed16f959af7d585862b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:43 +0000
Subject: [PATCH 05/58] fix: place the feed-through of the first step in
 condensed outputs of grouped controls

---
 core/include/humoto/control_problem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/humoto/control_problem.h b/core/include/humoto/control_problem.h
index c4da964..a4a9aa6 100644
--- a/core/include/humoto/control_problem.h
+++ b/core/include/humoto/control_problem.h
@@ -167,7 +167,7 @@ namespace humoto
 
                 for (std::size_t i = 0; i < Uu.size(); ++i)
                 {
-                    Ou[i](N-1, N-1) = E[0].block( 0,
+                    Ou[i](0, 0) = E[0].block( 0,
                                                   control_offsets[i],
                                                   t_num_outputs,
                                                   Uu[i].getBlockColsNum());
-- 
2.43.0


From 5bb83fe8208c85a86cba4378ac3b06695771782b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:19 +0000
Subject: [PATCH 06/58] fix: let blocks of selected rows refer to the selection
 instead of a temporary copy

---
 core/include/eigentools/blockmatrix_base.h | 31 +++++++++++++++++++---
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/core/include/eigentools/blockmatrix_base.h b/core/include/eigentools/blockmatrix_base.h
index 9ef7792..fcabb7e 100644
--- a/core/include/eigentools/blockmatrix_base.h
+++ b/core/include/eigentools/blockmatrix_base.h
@@ -64,6 +64,29 @@ namespace etools
     };
 
 
+    /**
+     * @brief Type of the expression whose blocks are accessed: what derived()
+     * returns. Blocks must refer to this type, since a block of any other type
+     * would refer to a temporary copy.
+     *
+     * @tparam T decayed matrix type
+     */
+    template<class T>   struct TypeDerived
+    {
+        typedef T Type;
+    };
+
+    /**
+     * @brief Type of the expression whose blocks are accessed
+     *
+     * @tparam T derived type of a plain object
+     */
+    template<class T>   struct TypeDerived< Eigen::PlainObjectBase<T> >
+    {
+        typedef T Type;
+    };
+
+
 
     /**
      * @brief Matrix block size type
@@ -114,10 +137,10 @@ namespace etools
             typedef typename DecayedRawMatrix::Scalar           Scalar;
 
             /// Shorthand for Eigen block
-            typedef Eigen::Block< EIGENTOOLS_DYNAMIC_MATRIX( Scalar ) > DynamicMatrixBlock;
+            typedef Eigen::Block< typename TypeDerived<DecayedRawMatrix>::Type > DynamicMatrixBlock;
 
             /// Shorthand for Eigen block
-            typedef const Eigen::Block< const EIGENTOOLS_DYNAMIC_MATRIX( Scalar ) > ConstDynamicMatrixBlock;
+            typedef const Eigen::Block< const typename TypeDerived<DecayedRawMatrix>::Type > ConstDynamicMatrixBlock;
 
 
         public:
@@ -550,12 +573,12 @@ namespace etools
 
 
             /// Shorthand for Eigen block
-            typedef Eigen::Block<   EIGENTOOLS_DYNAMIC_MATRIX( Scalar ),
+            typedef Eigen::Block<   typename TypeDerived<DecayedRawMatrix>::Type,
                                     t_block_rows_num,
                                     t_block_cols_num> StaticMatrixBlock;
 
             /// Shorthand for Eigen block
-            typedef const Eigen::Block< const EIGENTOOLS_DYNAMIC_MATRIX( Scalar ),
+            typedef const Eigen::Block< const typename TypeDerived<DecayedRawMatrix>::Type,
                                         t_block_rows_num,
                                         t_block_cols_num> ConstStaticMatrixBlock;
 
-- 
2.43.0


From edc3a70f59d2d822d34b35ba65635d4d395a81c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:19 +0000
Subject: [PATCH 07/58] fix: use the horizontal block size in row selections of
 dynamic block matrices

---
 core/include/eigentools/blockmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/eigentools/blockmatrix.h b/core/include/eigentools/blockmatrix.h
index 4a7733d..19525e0 100644
--- a/core/include/eigentools/blockmatrix.h
+++ b/core/include/eigentools/blockmatrix.h
@@ -203,7 +203,7 @@ namespace etools
                                                         EIGENTOOLS_BLOCKMATRIX_BLOCK_ROWS_NUM,
                                                         row_in_a_block),
                                      MatrixBlockSizeType::UNDEFINED,
-                                     ((t_block_rows_num > 0) ? MatrixBlockSizeType::UNDEFINED : block_rows_num_)));
+                                     ((t_block_cols_num > 0) ? MatrixBlockSizeType::UNDEFINED : block_cols_num_)));
             }
 
 
-- 
2.43.0


From becb82d3bcd1456085e8eab956be12ddce18cda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:37 +0000
Subject: [PATCH 08/58] fix: set block sizes of the result in products of
 scalar Kronecker and dynamic block diagonal matrices

---
 core/include/eigentools/blockmatrix_kronecker.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/core/include/eigentools/blockmatrix_kronecker.h b/core/include/eigentools/blockmatrix_kronecker.h
index 08cf696..9f8ed6f 100644
--- a/core/include/eigentools/blockmatrix_kronecker.h
+++ b/core/include/eigentools/blockmatrix_kronecker.h
@@ -613,12 +613,15 @@ namespace etools
                                     "Sizes of matrices do not match.");
 
 
+                result.resize(num_blocks_vert_*dbm.getBlockRowsNum(), dbm.getNumberOfColumns());
+
                 BlockMatrixBase<Eigen::PlainObjectBase<t_Derived> &,
                                 t_dbm_block_rows_num,
                                 t_dbm_block_cols_num,
-                                MatrixSparsityType::NONE >   result_bmi(result);
-
-                result_bmi.resize(num_blocks_vert_, dbm.getNumberOfBlocksHorizontal());
+                                MatrixSparsityType::NONE >   result_bmi(
+                                    result,
+                                    (MatrixBlockSizeType::DYNAMIC == t_dbm_block_rows_num) ? dbm.getBlockRowsNum() : MatrixBlockSizeType::UNDEFINED,
+                                    (MatrixBlockSizeType::DYNAMIC == t_dbm_block_cols_num) ? dbm.getBlockColsNum() : MatrixBlockSizeType::UNDEFINED);
 
                 if (num_blocks_hor_ != 0)
                 {
@@ -830,13 +833,15 @@ namespace etools
                                     "Sizes of matrices do not match.");
 
 
+                result.setZero(num_blocks_vert_*dbm.getBlockRowsNum(), dbm.getNumberOfColumns());
 
                 BlockMatrixBase<Eigen::PlainObjectBase<t_Derived>   &,
                                 t_dbm_block_rows_num,
                                 t_dbm_block_cols_num,
-                                MatrixSparsityType::NONE >   result_bmi(result);
-
-                result_bmi.setZero(num_blocks_vert_, dbm.getNumberOfBlocksHorizontal());
+                                MatrixSparsityType::NONE >   result_bmi(
+                                    result,
+                                    (MatrixBlockSizeType::DYNAMIC == t_dbm_block_rows_num) ? dbm.getBlockRowsNum() : MatrixBlockSizeType::UNDEFINED,
+                                    (MatrixBlockSizeType::DYNAMIC == t_dbm_block_cols_num) ? dbm.getBlockColsNum() : MatrixBlockSizeType::UNDEFINED);
 
                 if (num_blocks_hor_ != 0)
                 {
-- 
2.43.0


From aa733db64837538bfb5dcfba8ead5b82651cf982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:37 +0000
Subject: [PATCH 09/58] fix: multiply block diagonal and scalar Kronecker
 matrices of nonsquare sizes

---
 core/include/eigentools/blockmatrix_kronecker.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/core/include/eigentools/blockmatrix_kronecker.h b/core/include/eigentools/blockmatrix_kronecker.h
index 9f8ed6f..50d98cf 100644
--- a/core/include/eigentools/blockmatrix_kronecker.h
+++ b/core/include/eigentools/blockmatrix_kronecker.h
@@ -879,20 +879,23 @@ namespace etools
                                                              t_dbm_block_cols_num,
                                                              MatrixSparsityType::DIAGONAL> &dbm) const
             {
-                EIGENTOOLS_ASSERT(dbm.getBlockRowsNum() == identity_size_,
+                EIGENTOOLS_ASSERT(dbm.getBlockColsNum() == identity_size_,
                                     "Block sizes do not match.");
-                EIGENTOOLS_ASSERT(num_blocks_hor_ == dbm.getNumberOfBlocksVertical(),
+                EIGENTOOLS_ASSERT(num_blocks_vert_ == dbm.getNumberOfBlocksHorizontal(),
                                     "Numbers of blocks do not match.");
-                EIGENTOOLS_ASSERT(num_blocks_hor_*identity_size_ == dbm.getNumberOfRows(),
+                EIGENTOOLS_ASSERT(num_blocks_vert_*identity_size_ == dbm.getNumberOfColumns(),
                                     "Sizes of matrices do not match.");
 
 
+                result.setZero(dbm.getNumberOfRows(), num_blocks_hor_*identity_size_);
+
                 BlockMatrixBase<    Eigen::PlainObjectBase<t_Derived> &,
                                     t_dbm_block_rows_num,
                                     t_dbm_block_cols_num,
-                                    MatrixSparsityType::NONE >   result_bmi(result);
-
-                result_bmi.setZero(num_blocks_vert_, dbm.getNumberOfBlocksHorizontal());
+                                    MatrixSparsityType::NONE >   result_bmi(
+                                        result,
+                                        (MatrixBlockSizeType::DYNAMIC == t_dbm_block_rows_num) ? dbm.getBlockRowsNum() : MatrixBlockSizeType::UNDEFINED,
+                                        (MatrixBlockSizeType::DYNAMIC == t_dbm_block_cols_num) ? dbm.getBlockColsNum() : MatrixBlockSizeType::UNDEFINED);
 
                 if (num_blocks_hor_ != 0)
                 {
-- 
2.43.0


From e7ae3730bffe0f3b822dc3a22039ac1879ab3716 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:11:16 +0000
Subject: [PATCH 10/58] fix: drop all empty matrices in vertical concatenation

---
 core/include/eigentools/eigentools.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/include/eigentools/eigentools.h b/core/include/eigentools/eigentools.h
index 8a4cc53..0dbd8d9 100644
--- a/core/include/eigentools/eigentools.h
+++ b/core/include/eigentools/eigentools.h
@@ -480,13 +480,17 @@ namespace etools
             std::ptrdiff_t total_number_of_rows = 0;
             std::ptrdiff_t number_of_cols = 0;
 
-            for(std::size_t i = 0; i < number_of_matrices; ++i)
+            for(std::size_t i = 0; i < number_of_matrices;)
             {
                 if(!nonempty_matrices[i].size())
                 {
                     nonempty_matrices.erase(nonempty_matrices.begin() + i);
                     --number_of_matrices;
                 }
+                else
+                {
+                    ++i;
+                }
             }
 
             if(!number_of_matrices)
-- 
2.43.0


From f2db15aa80e2914d557ff4ee545554d3f2b38ce6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:11:16 +0000
Subject: [PATCH 11/58] fix: check bounds of removed rows and columns

---
 core/include/eigentools/eigentools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/eigentools/eigentools.h b/core/include/eigentools/eigentools.h
index 0dbd8d9..6c3694c 100644
--- a/core/include/eigentools/eigentools.h
+++ b/core/include/eigentools/eigentools.h
@@ -641,7 +641,7 @@ namespace etools
             removeRow(  Eigen::PlainObjectBase<t_Derived> & matrix,
                         const std::ptrdiff_t row_to_remove)
     {
-        EIGENTOOLS_ASSERT(row_to_remove <= matrix.rows(), "The index of a removed row is greater than the size of the matrix.");
+        EIGENTOOLS_ASSERT((row_to_remove >= 0) && (row_to_remove < matrix.rows()), "The index of a removed row is greater than the size of the matrix.");
 
         std::ptrdiff_t number_of_rows = matrix.rows()-1;
         std::ptrdiff_t number_of_cols = matrix.cols();
@@ -673,7 +673,7 @@ namespace etools
             removeColumn(   Eigen::PlainObjectBase<t_Derived> & matrix,
                             const std::ptrdiff_t column_to_remove)
     {
-        EIGENTOOLS_ASSERT(column_to_remove <= matrix.rows(), "The index of a removed column is greater than the size of the matrix.");
+        EIGENTOOLS_ASSERT((column_to_remove >= 0) && (column_to_remove < matrix.cols()), "The index of a removed column is greater than the size of the matrix.");
 
         std::ptrdiff_t number_of_rows = matrix.rows();
         std::ptrdiff_t number_of_cols = matrix.cols()-1;
-- 
2.43.0


From 0d05b540f87d49271e95d0dd97fe92e8ca6be829 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:11:16 +0000
Subject: [PATCH 12/58] fix: size of the Matrix1x2 type

---
 core/include/eigentools/eigentools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/eigentools/eigentools.h b/core/include/eigentools/eigentools.h
index 6c3694c..de2c40f 100644
--- a/core/include/eigentools/eigentools.h
+++ b/core/include/eigentools/eigentools.h
@@ -83,7 +83,7 @@ namespace etools
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(9, 9)  Matrix9;
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(10, 10)  Matrix10;
 
-    typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 1)  Matrix1x2;
+    typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 2)  Matrix1x2;
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 3)  Matrix1x3;
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 4)  Matrix1x4;
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 5)  Matrix1x5;
-- 
2.43.0


From 570b227abd29f2148b4ca782ed6db1f45f3bac8c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:11:16 +0000
Subject: [PATCH 13/58] fix: coefficients of cubic polynomials with nonzero
 velocities

---
 core/include/rigid_body/cubic_polynomial.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/rigid_body/cubic_polynomial.h b/core/include/rigid_body/cubic_polynomial.h
index 8c76869..971fc8d 100644
--- a/core/include/rigid_body/cubic_polynomial.h
+++ b/core/include/rigid_body/cubic_polynomial.h
@@ -82,8 +82,8 @@ namespace humoto
                 {
                     a0_ = a;
                     a1_ = adot;
-                    a2_ =  3.0*(b - a) - 2.0*(adot - bdot);
-                    a3_ = -2.0*(b - a) + 1.0*(bdot - adot);
+                    a2_ =  3.0*(b - a) - 2.0*adot - bdot;
+                    a3_ = -2.0*(b - a) + adot + bdot;
                 }
 
 
-- 
2.43.0


From d054729172d6a66aa645277042471dd31e9a57cf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:11:46 +0000
Subject: [PATCH 14/58] fix: vertical velocity and acceleration of the swing
 foot

---
 core/include/walking/foot_trajectory.h | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/core/include/walking/foot_trajectory.h b/core/include/walking/foot_trajectory.h
index 3ba7b77..11e6ecb 100644
--- a/core/include/walking/foot_trajectory.h
+++ b/core/include/walking/foot_trajectory.h
@@ -66,8 +66,8 @@ namespace humoto
                     HUMOTO_ASSERT(b(2) <= (a(2) + step_height), "final z position greater than step height.")
                     x_.initialize( a(0),               adot(0), b(0),               bdot(0));
                     y_.initialize( a(1),               adot(1), b(1),               bdot(1));
-                    z1_.initialize(a(2),               adot(2), a(2) + step_height, 0.0);
-                    z2_.initialize(step_height + a(2), 0.0,     b(2),               bdot(2));
+                    z1_.initialize(a(2),               adot(2)/2, a(2) + step_height, 0.0);
+                    z2_.initialize(step_height + a(2), 0.0,     b(2),               bdot(2)/2);
                 }
 
 
@@ -92,8 +92,8 @@ namespace humoto
                                        b.rpy_(humoto::AngleIndex::YAW),
                                        b.angular_velocity_(humoto::AngleIndex::YAW));
                     
-                    z1_.initialize(a.position_(2),               a.velocity_(2), a.position_(2) + step_height, 0.0);
-                    z2_.initialize(step_height + a.position_(2), 0.0,            b.position_(2),               b.velocity_(2));
+                    z1_.initialize(a.position_(2),               a.velocity_(2)/2, a.position_(2) + step_height, 0.0);
+                    z2_.initialize(step_height + a.position_(2), 0.0,            b.position_(2),               b.velocity_(2)/2);
                 }
 
 
@@ -127,13 +127,27 @@ namespace humoto
                 double evalz(   const double t,
                                 const rigidbody::TrajectoryEvaluationType::Type trajectory_type) const
                 {
+                    // each part lasts 0.5, i.e., its time is scaled by 2
+                    double derivative_scale = 1.0;
+                    switch (trajectory_type)
+                    {
+                        case rigidbody::TrajectoryEvaluationType::VELOCITY:
+                            derivative_scale = 2.0;
+                            break;
+                        case rigidbody::TrajectoryEvaluationType::ACCELERATION:
+                            derivative_scale = 4.0;
+                            break;
+                        default:
+                            break;
+                    }
+
                     if (t <= 0.5)
                     {
-                        return (z1_.eval(t*2, trajectory_type));
+                        return (derivative_scale * z1_.eval(t*2, trajectory_type));
                     }
                     else
                     {
-                        return (z2_.eval((t-0.5)*2, trajectory_type));
+                        return (derivative_scale * z2_.eval((t-0.5)*2, trajectory_type));
                     }
                 }
                 
-- 
2.43.0


From 8b91235cb84a98055b2550b8f3f27614805eef4e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:11:46 +0000
Subject: [PATCH 15/58] fix: empty stance preview

---
 core/include/walking/stance_finite_state_machine.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/walking/stance_finite_state_machine.h b/core/include/walking/stance_finite_state_machine.h
index 528bf6c..f3c75e2 100644
--- a/core/include/walking/stance_finite_state_machine.h
+++ b/core/include/walking/stance_finite_state_machine.h
@@ -356,7 +356,7 @@ namespace humoto
             }
 
             //always add one state afted TDS
-            if((not_enough_states == false) && (stance_types.back().type_ == StanceType::TDS))
+            if((not_enough_states == false) && (stance_types.empty() == false) && (stance_types.back().type_ == StanceType::TDS))
             {
                 if(stance_fsm.current_stance_.type_ == StanceType::TDS)
                 {
-- 
2.43.0


From e68f45143aad6487b86630ebfcf4f38899c3e4a9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:12:52 +0000
Subject: [PATCH 16/58] fix: reset yaw when a foot trajectory is reinitialized
 without it

---
 core/include/walking/foot_trajectory.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/include/walking/foot_trajectory.h b/core/include/walking/foot_trajectory.h
index 11e6ecb..0a224a8 100644
--- a/core/include/walking/foot_trajectory.h
+++ b/core/include/walking/foot_trajectory.h
@@ -44,6 +44,7 @@ namespace humoto
                     HUMOTO_ASSERT(b(2) <= (a(2) + step_height), "final z position greater than step height.")
                     x_.initialize( a(0),               b(0));
                     y_.initialize( a(1),               b(1));
+                    theta_.initialize(0.0, 0.0);
                     z1_.initialize(a(2),               a(2) + step_height);
                     z2_.initialize(step_height + a(2), b(2));
                 }
@@ -66,6 +67,7 @@ namespace humoto
                     HUMOTO_ASSERT(b(2) <= (a(2) + step_height), "final z position greater than step height.")
                     x_.initialize( a(0),               adot(0), b(0),               bdot(0));
                     y_.initialize( a(1),               adot(1), b(1),               bdot(1));
+                    theta_.initialize(0.0, 0.0);
                     z1_.initialize(a(2),               adot(2)/2, a(2) + step_height, 0.0);
                     z2_.initialize(step_height + a(2), 0.0,     b(2),               bdot(2)/2);
                 }
-- 
2.43.0


From 21b5681f169358caf0b0e9031d43a89c3b6cced9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:12:52 +0000
Subject: [PATCH 17/58] fix: standing in double support when the first single
 support is undefined

---
 core/include/walking/stance_finite_state_machine.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/include/walking/stance_finite_state_machine.h b/core/include/walking/stance_finite_state_machine.h
index f3c75e2..5570be2 100644
--- a/core/include/walking/stance_finite_state_machine.h
+++ b/core/include/walking/stance_finite_state_machine.h
@@ -262,6 +262,7 @@ namespace humoto
                                 case StanceType::UNDEFINED:
                                     current_stance_.previous_nonds_stance_type_ = StanceType::UNDEFINED;
                                     sfsm_params_.num_steps_ = 0;
+                                    ss_states_to_termination_ = 0;
                                     break;
                                 default:
                                     HUMOTO_THROW_MSG("Misformed walking options.");
-- 
2.43.0


From 8b06ea82751e06fa8ffe653be8c4316740968f78 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:24:21 +0000
Subject: [PATCH 18/58] fix: write matrices to configuration files row by row

---
 bridges/config_msgpack/interface/config_msgpack/writer.h | 8 ++++++--
 bridges/config_yaml/interface/config_yaml/writer.h       | 7 ++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/bridges/config_msgpack/interface/config_msgpack/writer.h b/bridges/config_msgpack/interface/config_msgpack/writer.h
index 31dc8c8..fc1ee8d 100644
--- a/bridges/config_msgpack/interface/config_msgpack/writer.h
+++ b/bridges/config_msgpack/interface/config_msgpack/writer.h
@@ -139,9 +139,13 @@ namespace humoto
                         packer_->pack("data");
                         packer_->pack_array(entry.size());
 
-                        for (humoto::EigenIndex i = 0; i < entry.size(); ++i)
+                        // row by row, as expected by the reader
+                        for (humoto::EigenIndex i = 0; i < entry.rows(); ++i)
                         {
-                            packer_->pack(entry.data()[i]);
+                            for (humoto::EigenIndex j = 0; j < entry.cols(); ++j)
+                            {
+                                packer_->pack(entry(i, j));
+                            }
                         }
 
                         ascend();
diff --git a/bridges/config_yaml/interface/config_yaml/writer.h b/bridges/config_yaml/interface/config_yaml/writer.h
index 95a7d99..fe89f9a 100644
--- a/bridges/config_yaml/interface/config_yaml/writer.h
+++ b/bridges/config_yaml/interface/config_yaml/writer.h
@@ -166,11 +166,12 @@ namespace humoto
                         *emitter_ << YAML::Value << YAML::Flow;
                         *emitter_ << YAML::BeginSeq;
 
-                        for(humoto::EigenIndex i = 0; i < entry.cols(); ++i)
+                        // row by row, as expected by the reader
+                        for(humoto::EigenIndex i = 0; i < entry.rows(); ++i)
                         {
-                            for(humoto::EigenIndex j = 0; j < entry.rows(); ++j)
+                            for(humoto::EigenIndex j = 0; j < entry.cols(); ++j)
                             {
-                                *emitter_ << entry(j, i);
+                                *emitter_ << entry(i, j);
                             }
                         }
 
-- 
2.43.0


From a121e9995697f5a08b4b5dbc2b103762b8412cf2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:29:20 +0000
Subject: [PATCH 19/58] fix: leave configuration nodes when reading fails

---
 .../interface/config_msgpack/reader.h         | 36 ++++++++++++++-----
 core/include/config.h                         | 10 +++++-
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/bridges/config_msgpack/interface/config_msgpack/reader.h b/bridges/config_msgpack/interface/config_msgpack/reader.h
index c4d1168..6593b5e 100644
--- a/bridges/config_msgpack/interface/config_msgpack/reader.h
+++ b/bridges/config_msgpack/interface/config_msgpack/reader.h
@@ -30,6 +30,23 @@ namespace humoto
 
 
                 private:
+                    /**
+                     * @brief Leaves a node on destruction, also when an exception is thrown.
+                     */
+                    class NodeGuard
+                    {
+                        private:
+                            Reader & reader_;
+
+                        public:
+                            explicit NodeGuard(Reader & reader) : reader_(reader) {}
+                            ~NodeGuard()
+                            {
+                                reader_.ascend();
+                            }
+                    };
+
+
                     /**
                      * @brief open configuration file
                      *
@@ -181,6 +198,8 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeGuard node_guard(*this);
+
                             HUMOTO_ASSERT(  (::msgpack::type::ARRAY == getCurrentNode()->type),
                                             "[Config] Entry is not an array.");
 
@@ -198,8 +217,6 @@ namespace humoto
                             {
                                 getCurrentNode()->via.array.ptr[i] >> entry[i];
                             }
-
-                            ascend();
                         }
                         else
                         {
@@ -234,6 +251,8 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeGuard node_guard(*this);
+
                             humoto::EigenIndex num_rows;
                             humoto::EigenIndex num_cols;
 
@@ -254,8 +273,6 @@ namespace humoto
                                                                                 num_rows,
                                                                                 num_cols);
                             entry = map;
-
-                            ascend();
                         }
                         else
                         {
@@ -283,6 +300,8 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeGuard node_guard(*this);
+
                             HUMOTO_ASSERT(  (::msgpack::type::ARRAY == getCurrentNode()->type),
                                             "[Config] Entry is not an array.");
 
@@ -292,8 +311,6 @@ namespace humoto
                             {
                                 getCurrentNode()->via.array.ptr[i] >> entry[i];
                             }
-
-                            ascend();
                         }
                         else
                         {
@@ -322,8 +339,9 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeGuard node_guard(*this);
+
                             *getCurrentNode() >> entry;
-                            ascend();
                         }
                         else
                         {
@@ -352,12 +370,12 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeGuard node_guard(*this);
+
                             int tmp_value = 0;
                             *getCurrentNode() >> tmp_value;
 
                             entry = static_cast<t_EnumerationType> (tmp_value);
-
-                            ascend();
                         }
                         else
                         {
diff --git a/core/include/config.h b/core/include/config.h
index 6672d75..f6b71df 100644
--- a/core/include/config.h
+++ b/core/include/config.h
@@ -138,7 +138,15 @@ namespace humoto
                             setDefaults();
                             if (reader.descend(node_name))
                             {
-                                readConfigEntries(reader, crash_on_missing_entry);
+                                try
+                                {
+                                    readConfigEntries(reader, crash_on_missing_entry);
+                                }
+                                catch(...)
+                                {
+                                    reader.ascend();
+                                    throw;
+                                }
                                 reader.ascend();
                             }
                             else
-- 
2.43.0


From a83b2ceb19e80246d233588a0cb22697aee91f13 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:29:20 +0000
Subject: [PATCH 20/58] fix: empty root nodes in msgpack configuration files

---
 bridges/config_msgpack/interface/config_msgpack/reader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bridges/config_msgpack/interface/config_msgpack/reader.h b/bridges/config_msgpack/interface/config_msgpack/reader.h
index 6593b5e..ca9f4e9 100644
--- a/bridges/config_msgpack/interface/config_msgpack/reader.h
+++ b/bridges/config_msgpack/interface/config_msgpack/reader.h
@@ -137,7 +137,7 @@ namespace humoto
                         {
                             for (std::size_t i = 0; i < handles_.size(); ++i)
                             {
-                                if (::msgpack::type::MAP == handles_[i]->get().type)
+                                if ((::msgpack::type::MAP == handles_[i]->get().type) && (handles_[i]->get().via.map.size > 0))
                                 {
                                     if (child_name == handles_[i]->get().via.map.ptr[0].key.as<std::string>())
                                     {
-- 
2.43.0


From 85ba3d5a454558b0e167c17a5be39868932c76bc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:29:36 +0000
Subject: [PATCH 21/58] fix: check sizes of matrices in msgpack configuration
 files

---
 .../interface/config_msgpack/reader.h            | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/bridges/config_msgpack/interface/config_msgpack/reader.h b/bridges/config_msgpack/interface/config_msgpack/reader.h
index ca9f4e9..2e7d04e 100644
--- a/bridges/config_msgpack/interface/config_msgpack/reader.h
+++ b/bridges/config_msgpack/interface/config_msgpack/reader.h
@@ -263,8 +263,22 @@ namespace humoto
                             Eigen::VectorXd v;
                             readCompound(v, "data", true);
 
-                            HUMOTO_ASSERT(  v.rows() == num_rows*num_cols,
+                            HUMOTO_ASSERT(  (num_rows >= 0) && (num_cols >= 0),
                                             std::string("Inconsistent configuration file entry: ") + entry_name);
+                            if (num_cols > 0)
+                            {
+                                // avoid multiplication, which may overflow
+                                HUMOTO_ASSERT(  (v.rows() % num_cols == 0) && (v.rows() / num_cols == num_rows),
+                                                std::string("Inconsistent configuration file entry: ") + entry_name);
+                            }
+                            else
+                            {
+                                HUMOTO_ASSERT(  v.rows() == 0,
+                                                std::string("Inconsistent configuration file entry: ") + entry_name);
+                            }
+                            HUMOTO_ASSERT(  ((Eigen::Dynamic == t_rows) || (num_rows == t_rows))
+                                            && ((Eigen::Dynamic == t_cols) || (num_cols == t_cols)),
+                                            std::string("Wrong matrix size in the configuration file entry: ") + entry_name);
 
                             Eigen::Map< Eigen::Matrix<  double,
                                                         Eigen::Dynamic,
-- 
2.43.0


From 85d176df1add4bf81c269e00ac6fb674a9d92909 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:29:52 +0000
Subject: [PATCH 22/58] fix: unknown tasks in configurable optimization
 problems

---
 core/include/humoto/configurable_optimization_problem.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/include/humoto/configurable_optimization_problem.h b/core/include/humoto/configurable_optimization_problem.h
index 8200407..9e90cfb 100644
--- a/core/include/humoto/configurable_optimization_problem.h
+++ b/core/include/humoto/configurable_optimization_problem.h
@@ -150,10 +150,11 @@ namespace humoto
                     for(std::size_t j = 0; j < task_class_names_[i].size(); ++j)
                     {
                         humoto::TaskSharedPointer task = getTask(task_class_names_[i][j]);
-                        task->setDescription(task_ids_[i][j]);
 
                         if (task)
                         {
+                            task->setDescription(task_ids_[i][j]);
+
                             // configure tasks
                             task->readConfig(reader, task_ids_[i][j], crash_on_missing_entry);
                             // push tasks into the stack/hierarchy
-- 
2.43.0


From 6aefdb1533ccd4565cd765ed42c0321d49a7355f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:29:52 +0000
Subject: [PATCH 23/58] fix: zero subsampling time in wpg04

---
 modules/wpg04/include/wpg04/common.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/wpg04/include/wpg04/common.h b/modules/wpg04/include/wpg04/common.h
index f38829a..97ec280 100644
--- a/modules/wpg04/include/wpg04/common.h
+++ b/modules/wpg04/include/wpg04/common.h
@@ -113,6 +113,8 @@ namespace humoto
                  */
                 void finalize()
                 {
+                    HUMOTO_ASSERT(subsampling_time_ms_ > 0, "Subsampling time should be positive.");
+
                     if (sampling_time_ms_ % subsampling_time_ms_ == 0)
                     {
                         subsamples_num_ = sampling_time_ms_ / subsampling_time_ms_;
-- 
2.43.0


From db2b2b5f107424e8c9f97ea1853cb5802dfb63e8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:31:14 +0000
Subject: [PATCH 24/58] fix: reset common parameters of solvers to defaults

---
 bridges/QuadProgpp/interface/quadprogpp/solver.h | 2 ++
 bridges/qpOASES/interface/qpoases/solver.h       | 2 ++
 bridges/qpmad/interface/qpmad/solver.h           | 2 ++
 core/include/kktsolver.h                         | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/bridges/QuadProgpp/interface/quadprogpp/solver.h b/bridges/QuadProgpp/interface/quadprogpp/solver.h
index 62484f3..acabd0d 100644
--- a/bridges/QuadProgpp/interface/quadprogpp/solver.h
+++ b/bridges/QuadProgpp/interface/quadprogpp/solver.h
@@ -33,6 +33,8 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    SolverParametersBase::setDefaults();
+
                     regularization_factor_ = 0;
                 }
 
diff --git a/bridges/qpOASES/interface/qpoases/solver.h b/bridges/qpOASES/interface/qpoases/solver.h
index 6cf85a0..4bfe7e8 100644
--- a/bridges/qpOASES/interface/qpoases/solver.h
+++ b/bridges/qpOASES/interface/qpoases/solver.h
@@ -104,6 +104,8 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    SolverParametersBase::setDefaults();
+
                     max_number_of_iterations_ = 1000;
                     max_cpu_time_ = 0.0;
                 }
diff --git a/bridges/qpmad/interface/qpmad/solver.h b/bridges/qpmad/interface/qpmad/solver.h
index d858a6e..0afc9e9 100644
--- a/bridges/qpmad/interface/qpmad/solver.h
+++ b/bridges/qpmad/interface/qpmad/solver.h
@@ -59,6 +59,8 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    SolverParametersBase::setDefaults();
+
                     regularization_factor_ = 0;
                 }
 
diff --git a/core/include/kktsolver.h b/core/include/kktsolver.h
index 31ddbec..4555b1c 100644
--- a/core/include/kktsolver.h
+++ b/core/include/kktsolver.h
@@ -66,6 +66,8 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    SolverParametersBase::setDefaults();
+
                     solution_method_ = LU;
                     elimination_regularization_factor_ = 1e-08;
                 }
-- 
2.43.0


From cbd454afa358ce59bdabb82a2c0e6d5d5adf7841 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:35:46 +0000
Subject: [PATCH 25/58] fix: data race on the interruption flag of the logger

---
 core/include/humoto/logger.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/include/humoto/logger.h b/core/include/humoto/logger.h
index 82b25d8..f791b62 100644
--- a/core/include/humoto/logger.h
+++ b/core/include/humoto/logger.h
@@ -593,12 +593,11 @@ namespace humoto
                     std::size_t num_msg = 0;
 
 
+                    message_queue_mutex_.lock();
                     if (interrupted_)
                     {
                         stop_thread = true;
                     }
-
-                    message_queue_mutex_.lock();
                     num_msg = message_queue_.size();
                     message_queue_mutex_.unlock();
 
@@ -644,7 +643,10 @@ namespace humoto
             {
                 if (! interrupted_)
                 {
+                    message_queue_mutex_.lock();
                     interrupted_ = true;
+                    message_queue_mutex_.unlock();
+
                     processor_thread_.join();
                 }
             }
-- 
2.43.0


From 578193c7c9dbf85e7dc357481e971e4ff2cdef85 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:36:01 +0000
Subject: [PATCH 26/58] fix: reinitialization of a logger which writes to a
 file

---
 core/include/humoto/logger.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/include/humoto/logger.h b/core/include/humoto/logger.h
index f791b62..5c915ee 100644
--- a/core/include/humoto/logger.h
+++ b/core/include/humoto/logger.h
@@ -314,6 +314,7 @@ namespace humoto
                 if (file_stream_is_open_)
                 {
                     output_file_stream_.close();
+                    file_stream_is_open_ = false;
                 }
             }
 
@@ -375,6 +376,7 @@ namespace humoto
              */
             explicit LoggerBase(std::ostream & output_stream)
             {
+                file_stream_is_open_ = false;
                 initialize(output_stream);
             }
 
@@ -386,6 +388,7 @@ namespace humoto
              */
             explicit LoggerBase(const std::string &output_filename)
             {
+                file_stream_is_open_ = false;
                 initialize(output_filename);
             }
 
@@ -408,7 +411,7 @@ namespace humoto
              */
             void initialize(std::ostream & output_stream)
             {
-                file_stream_is_open_ = false;
+                clean();
                 output_stream_ = &output_stream;
 
                 setDefaults();
@@ -422,13 +425,14 @@ namespace humoto
              */
             void initialize(const std::string &output_filename)
             {
-                file_stream_is_open_ = true;
+                clean();
 
                 output_file_stream_.open(output_filename.c_str());
                 if (output_file_stream_.fail())
                 {
                     HUMOTO_THROW_MSG(std::string("Could not open log file: ") + output_filename);
                 }
+                file_stream_is_open_ = true;
                 output_stream_ = &output_file_stream_;
 
                 setDefaults();
-- 
2.43.0


From 06ce6373ba6135313d53c804538f8d5f32a0b88a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:45:57 +0000
Subject: [PATCH 27/58] fix: log string literals as strings without logging
 thread

---
 core/include/humoto/logger.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/core/include/humoto/logger.h b/core/include/humoto/logger.h
index 5c915ee..92c0290 100644
--- a/core/include/humoto/logger.h
+++ b/core/include/humoto/logger.h
@@ -968,6 +968,20 @@ namespace humoto
                 OctaveFormatter::formatAndOutputEntry(output_stream_, name.getAsString(), data);
                 output_stream_->flush();
             }
+
+
+            /**
+             * @brief Log string
+             *
+             * @param[in] name
+             * @param[in] string
+             */
+            void  log(  const LogEntryName & name,
+                        const char *string)
+            {
+                OctaveFormatter::formatAndOutputEntry(output_stream_, name.getAsString(), std::string(string));
+                output_stream_->flush();
+            }
     };
 #endif // HUMOTO_USE_THREADS_FOR_LOGGING
 }
-- 
2.43.0


From 11fc0593a663584be07c22be61fc33320e736276 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:02:56 +0000
Subject: [PATCH 28/58] fix: out of bounds write in wpg04 when previewed states
 exceed the horizon

---
 modules/wpg04/include/wpg04/mpc_wpg.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/wpg04/include/wpg04/mpc_wpg.h b/modules/wpg04/include/wpg04/mpc_wpg.h
index 1712b2f..8dd3fa6 100644
--- a/modules/wpg04/include/wpg04/mpc_wpg.h
+++ b/modules/wpg04/include/wpg04/mpc_wpg.h
@@ -37,7 +37,9 @@ namespace humoto
                     std::size_t index = 0;
                     for(std::size_t i=0; i < (preview_horizon_.walk_states_.size() - 1); ++i)
                     {
-                        if (humoto::walking::StanceType::TDS != preview_horizon_.walk_states_[i].type_)
+                        // previewed states may extend beyond the last interval
+                        if (   (humoto::walking::StanceType::TDS != preview_horizon_.walk_states_[i].type_)
+                            && (index < preview_horizon_.getNumberOfVariableSteps()))
                         {
                             // orientations of the preceding foot positions.
                             R_(index) = preview_horizon_.walk_states_.at(i).rotation_;
-- 
2.43.0


From 315ccc15340c680b3a9e0012e7251b1aebfe0451 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:02:56 +0000
Subject: [PATCH 29/58] fix: request for a foot landing state which is not
 previewed in wpg04

---
 modules/wpg04/include/wpg04/mpc_wpg.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/wpg04/include/wpg04/mpc_wpg.h b/modules/wpg04/include/wpg04/mpc_wpg.h
index 8dd3fa6..3433222 100644
--- a/modules/wpg04/include/wpg04/mpc_wpg.h
+++ b/modules/wpg04/include/wpg04/mpc_wpg.h
@@ -184,6 +184,9 @@ namespace humoto
                                             const humoto::wpg04::Model &model,
                                             const humoto::LeftOrRight::Type landing_foot) const
                 {
+                    HUMOTO_ASSERT(  preview_horizon_.getNumberOfVariableSteps() > 0,
+                                    "There are no footsteps in the preview horizon.");
+
                     std::size_t interval_index = preview_horizon_.variable_steps_indices_[0];
                     const WalkState & walk_state = preview_horizon_.getWalkState(interval_index);
 
-- 
2.43.0


From 126ffe6464273f25196755af27938d997b123702 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:02:56 +0000
Subject: [PATCH 30/58] fix: transitional double supports longer than one
 control step in wpg04

---
 modules/wpg04/include/wpg04/model.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/wpg04/include/wpg04/model.h b/modules/wpg04/include/wpg04/model.h
index 390ca83..3ebe663 100644
--- a/modules/wpg04/include/wpg04/model.h
+++ b/modules/wpg04/include/wpg04/model.h
@@ -189,6 +189,7 @@ namespace humoto
                                     break;
 
                                 case humoto::walking::StanceType::DS:
+                                case humoto::walking::StanceType::TDS:
                                     // no need to update positions of the feet (they must not change)
                                     break;
 
-- 
2.43.0


From 6eecad22e0b7aba354060aa129b445a4e15b58a3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:07:36 +0000
Subject: [PATCH 31/58] fix: orientation of a landed foot in the preview of
 wpg04

---
 modules/wpg04/include/wpg04/preview_horizon.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/modules/wpg04/include/wpg04/preview_horizon.h b/modules/wpg04/include/wpg04/preview_horizon.h
index 5a4b0b2..3b133d6 100644
--- a/modules/wpg04/include/wpg04/preview_horizon.h
+++ b/modules/wpg04/include/wpg04/preview_horizon.h
@@ -286,13 +286,19 @@ namespace humoto
                         if((stances.at(i + 1).type_ == humoto::walking::StanceType::RSS) &&
                            (state.previous_nontds_stance_type_ != humoto::walking::StanceType::DS))
                         {
-                            rss_theta = lss_theta + walk_parameters.theta_increment_;
+                            if (i > 0) // otherwise the foot has already landed
+                            {
+                                rss_theta = lss_theta + walk_parameters.theta_increment_;
+                            }
                             state.theta_ = rss_theta;
                         }
                         if((stances.at(i + 1).type_ == humoto::walking::StanceType::LSS) &&
                            (state.previous_nontds_stance_type_ != humoto::walking::StanceType::DS))
                         {
-                            lss_theta = rss_theta + walk_parameters.theta_increment_;
+                            if (i > 0) // otherwise the foot has already landed
+                            {
+                                lss_theta = rss_theta + walk_parameters.theta_increment_;
+                            }
                             state.theta_ = lss_theta;
                         }
                         if((stances.at(i + 1).type_ == humoto::walking::StanceType::DS) &&
-- 
2.43.0


From ebfea46b67b34c823caec7d6560bdbe4ea715204 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:22:47 +0000
Subject: [PATCH 32/58] fix: controls used for the intermediate states of
 pepper_mpc

---
 modules/pepper_mpc/include/pepper_mpc/mpc_mg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
index 2fd0c85..d463d19 100644
--- a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
+++ b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
@@ -318,8 +318,8 @@ namespace humoto
                                         preview_horizon_.intervals_[interval_index].T_,
                                         interval_offset,
                                         preceding_cstate,
-                                        base_controls_.head(2),
-                                        body_controls_.head(2),
+                                        base_control,
+                                        body_control,
                                         base_height,
                                         body_height,
                                         theta);
-- 
2.43.0


From c70b409a42297d03c7bd575b6697cf72439b245c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:22:47 +0000
Subject: [PATCH 33/58] fix: masses in predicted states of pepper_mpc

---
 modules/pepper_mpc/include/pepper_mpc/model.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/pepper_mpc/include/pepper_mpc/model.h b/modules/pepper_mpc/include/pepper_mpc/model.h
index e14393c..c131f71 100644
--- a/modules/pepper_mpc/include/pepper_mpc/model.h
+++ b/modules/pepper_mpc/include/pepper_mpc/model.h
@@ -264,6 +264,9 @@ namespace humoto
                     model_state.body_state_ = convertBodyStateMPCtoRB(mpc_state, body_height);
 
                     model_state.base_state_.rpy_.z() = theta;
+
+                    model_state.base_mass_ = state_.base_mass_;
+                    model_state.body_mass_ = state_.body_mass_;
                 }
 
 
-- 
2.43.0


From a6404c0b768fa295775bc1ba165b70b30b0770df Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:22:47 +0000
Subject: [PATCH 34/58] fix: order of heights in a constructor of
 pepper_mpc::ModelState

---
 modules/pepper_mpc/include/pepper_mpc/model_state.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/pepper_mpc/include/pepper_mpc/model_state.h b/modules/pepper_mpc/include/pepper_mpc/model_state.h
index 6fbd542..59370c7 100644
--- a/modules/pepper_mpc/include/pepper_mpc/model_state.h
+++ b/modules/pepper_mpc/include/pepper_mpc/model_state.h
@@ -99,7 +99,7 @@ namespace humoto
                             const double body_height,
                             const double body_x_offset)
                 {
-                    setParameters(body_height, base_height, body_x_offset);
+                    setParameters(base_height, body_height, body_x_offset);
                 }
 
 
-- 
2.43.0


From b083173f0f853cf9a0a2ecfcefc840c331a37856 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:24:01 +0000
Subject: [PATCH 35/58] fix: reference position of the body in pepper_mpc

---
 modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h b/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h
index 69ed918..6d86b62 100644
--- a/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h
+++ b/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h
@@ -34,7 +34,7 @@ namespace humoto
                     Eigen::VectorXd     &b    = getB();
 
                     A.noalias() = getGain()*mpc.Apd_;
-                    b.noalias() = getGain()*mpc.spd_;
+                    b.noalias() = -getGain()*mpc.spd_;
                 }
         };
     }//pepper
-- 
2.43.0


From 87c7676bdadd574cdd74b8521ed985db68a36dca Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:25:33 +0000
Subject: [PATCH 36/58] fix: change of the length of preview horizon in
 pepper_mpc

---
 modules/pepper_mpc/include/pepper_mpc/mpc_mg.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
index d463d19..fa6cdf8 100644
--- a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
+++ b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
@@ -162,6 +162,7 @@ namespace humoto
 
                     std::size_t number_of_state_variables = model.Ns_ * mpc_parameters_.preview_horizon_length_;
 
+                    S_.resize(number_of_state_variables, sol_structure_.getNumberOfVariables());
                     etools::BlockMatrixInterface<   etools::MatrixBlockSizeType::DYNAMIC,
                                                             etools::MatrixBlockSizeType::DYNAMIC,
                                                             etools::MatrixSparsityType::NONE> S_bmi( S_,
-- 
2.43.0


From 10d61eec77d7eda3691dd97f75c249c971e25f6b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:25:33 +0000
Subject: [PATCH 37/58] fix: shift of an active set by its whole size

---
 core/include/humoto/active_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/humoto/active_set.h b/core/include/humoto/active_set.h
index d490f07..3a47ba9 100644
--- a/core/include/humoto/active_set.h
+++ b/core/include/humoto/active_set.h
@@ -217,7 +217,7 @@ namespace humoto
             void shift( const std::size_t shift_size,
                         const ConstraintActivationType::Type type)
             {
-                HUMOTO_ASSERT(  shift_size < size(),
+                HUMOTO_ASSERT(  shift_size <= size(),
                                 "Shift size exceeded size of the active set.");
 
                 std::rotate(data_.begin(),
-- 
2.43.0


From 0a403e719c9baf3625c395fc93f4fbdca278c42a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:28:42 +0000
Subject: [PATCH 38/58] fix: copying of an active set to a location of a
 different size

---
 core/include/humoto/active_set.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/include/humoto/active_set.h b/core/include/humoto/active_set.h
index 3a47ba9..66e1652 100644
--- a/core/include/humoto/active_set.h
+++ b/core/include/humoto/active_set.h
@@ -134,6 +134,7 @@ namespace humoto
                         const ActiveSetConstraints  &other_active_set)
             {
                 HUMOTO_ASSERT(location.checkLength( size() ), "Incorrect location in an active set.");
+                HUMOTO_ASSERT(location.length_ == other_active_set.size(), "Incorrect location in an active set.");
 
                 std::copy(  other_active_set.data_.begin(),
                             other_active_set.data_.end(),
-- 
2.43.0


From 4e6e381b7419d609a514309c958eea19e9e826c7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:45:14 +0000
Subject: [PATCH 39/58] fix: pass the configured options to qpmad

---
 bridges/qpmad/interface/qpmad/solver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bridges/qpmad/interface/qpmad/solver.h b/bridges/qpmad/interface/qpmad/solver.h
index 0afc9e9..2bb026f 100644
--- a/bridges/qpmad/interface/qpmad/solver.h
+++ b/bridges/qpmad/interface/qpmad/solver.h
@@ -116,7 +116,8 @@ namespace humoto
                                         qp_problem_.getSolutionUpperBounds(),
                                         qp_problem_.getGeneralConstraints().getA(),
                                         qp_problem_.getGeneralConstraints().getLowerBounds(),
-                                        qp_problem_.getGeneralConstraints().getUpperBounds());
+                                        qp_problem_.getGeneralConstraints().getUpperBounds(),
+                                        parameters_.options_);
 
 
                     switch (qp_status)
-- 
2.43.0


From 13e0157cbd853312dcced84d3efda3785d364ca1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:45:14 +0000
Subject: [PATCH 40/58] fix: description of failures of QuadProgpp

---
 bridges/QuadProgpp/interface/quadprogpp/solution.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bridges/QuadProgpp/interface/quadprogpp/solution.h b/bridges/QuadProgpp/interface/quadprogpp/solution.h
index b388ffb..2646a26 100644
--- a/bridges/QuadProgpp/interface/quadprogpp/solution.h
+++ b/bridges/QuadProgpp/interface/quadprogpp/solution.h
@@ -31,7 +31,7 @@ namespace humoto
                  */
                 std::string getStatusDescription() const
                 {
-                    if (quadprogpp_return_value_ == std::numeric_limits<double>::infinity())
+                    if (quadprogpp_return_value_ != QuadProgpp::Status::OK)
                     {
                         return ("quadprogpp: an infeasible or degenerate problem.");
                     }
-- 
2.43.0


From 37562e0d49d6c281fa55beada93a2704c32b0950 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:45:14 +0000
Subject: [PATCH 41/58] fix: check sizes of the guesses given to qpOASES

---
 bridges/qpOASES/interface/qpoases/solver.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bridges/qpOASES/interface/qpoases/solver.h b/bridges/qpOASES/interface/qpoases/solver.h
index 4bfe7e8..d505695 100644
--- a/bridges/qpOASES/interface/qpoases/solver.h
+++ b/bridges/qpOASES/interface/qpoases/solver.h
@@ -406,6 +406,11 @@ namespace humoto
                 void setActiveSet(  const humoto::ActiveSet             &active_set,
                                     const humoto::OptimizationProblem   &hierarchy)
                 {
+                    HUMOTO_ASSERT(  active_set.size() == hierarchy.getNumberOfLevels(),
+                                    "Number of levels in the active set guess does not match the hierarchy.");
+                    HUMOTO_ASSERT(  active_set[0].size() == hierarchy[0].getNumberOfConstraints(),
+                                    "Number of constraints in the active set guess does not match the hierarchy.");
+
                     active_set_guess_provided_ = true;
 
                     qpoases_active_set_guess_constraints_.init(number_of_constraints_);
@@ -468,6 +473,8 @@ namespace humoto
                 /// @copydoc humoto::SolverGuessSolutionMixin::setSolutionGuess
                 void setSolutionGuess(const humoto::Solution & solution_guess)
                 {
+                    HUMOTO_ASSERT(  static_cast<const humoto::QPObjective &>(qp_problem_).getGradient().rows() == solution_guess.x_.rows(),
+                                    "Size of the solution guess does not match the problem.");
                     solution_guess_ = solution_guess.x_.data();
                 }
 
-- 
2.43.0


From d371499e667c49bd672e84f366a0d3298012ecef Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:45:14 +0000
Subject: [PATCH 42/58] fix: check structure of the solution against the
 hierarchy

---
 core/include/humoto/hierarchy.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/include/humoto/hierarchy.h b/core/include/humoto/hierarchy.h
index 475d0c9..e11e976 100644
--- a/core/include/humoto/hierarchy.h
+++ b/core/include/humoto/hierarchy.h
@@ -340,6 +340,9 @@ namespace humoto
 
                 qp_problem.initializeObjective(hierarchy_[objective_level], initialize_upper_triangular_part);
 
+                HUMOTO_ASSERT(  static_cast<std::size_t>(static_cast<const QPObjective &>(qp_problem).getGradient().rows()) == sol_structure.getNumberOfVariables(),
+                                "Number of variables in the hierarchy does not match the solution structure.");
+
                 if (number_of_levels > 1)
                 {
                     qp_problem.initializeConstraints(hierarchy_[0], sol_structure);
-- 
2.43.0


From b392dce06d57684fe1222d325934ba49fb9b5893 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:19:31 +0000
Subject: [PATCH 43/58] fix: initialize status of QPObjective

---
 core/include/humoto/qp_problem.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/include/humoto/qp_problem.h b/core/include/humoto/qp_problem.h
index 4e01bcb..c1cb501 100644
--- a/core/include/humoto/qp_problem.h
+++ b/core/include/humoto/qp_problem.h
@@ -47,6 +47,13 @@ namespace humoto
 
 
         public:
+            QPObjective()
+            {
+                hessian_type_ = HESSIAN_UNDEFINED;
+                status_ = UNDEFINED;
+            }
+
+
             /**
              * @brief Generates (general) objective containing all constraints on this level
              *
-- 
2.43.0


From 5b366a82f5d3344a902b1ab42aa46b72fb4aeaf5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:38:24 +0000
Subject: [PATCH 44/58] fix: reject unknown names of links in the bridge to
 RBDL

---
 bridges/rbdl/interface/rbdl/model.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bridges/rbdl/interface/rbdl/model.h b/bridges/rbdl/interface/rbdl/model.h
index 3854928..569536f 100644
--- a/bridges/rbdl/interface/rbdl/model.h
+++ b/bridges/rbdl/interface/rbdl/model.h
@@ -741,7 +741,10 @@ namespace humoto
                  */
                 std::size_t getLinkId(const std::string   &string_id) const
                 {
-                    return (rbdl_model_.GetBodyId(string_id.c_str()));
+                    const unsigned int id = rbdl_model_.GetBodyId(string_id.c_str());
+                    HUMOTO_ASSERT(  std::numeric_limits<unsigned int>::max() != id,
+                                    std::string("Unknown link '") + string_id + "'.");
+                    return (id);
                 }
 
 
-- 
2.43.0


From 66b65c1a82cad58b0a64985c951f624526d5e9d3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:38:24 +0000
Subject: [PATCH 45/58] fix: replace the previous model when a model is loaded

---
 bridges/rbdl/interface/rbdl/model.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bridges/rbdl/interface/rbdl/model.h b/bridges/rbdl/interface/rbdl/model.h
index 569536f..17fc7c4 100644
--- a/bridges/rbdl/interface/rbdl/model.h
+++ b/bridges/rbdl/interface/rbdl/model.h
@@ -704,6 +704,8 @@ namespace humoto
                 void setDefaults()
                 {
                     total_mass_ = 0.0;
+                    rbdl_model_ = RigidBodyDynamics::Model();
+                    joint_data_.clear();
                 }
 
 
-- 
2.43.0


From d62153aec72f67e02b58c4cd2524b13f0af6a4de Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:38:37 +0000
Subject: [PATCH 46/58] fix: masses and CoM of fixed links in the bridge to
 RBDL

---
 bridges/rbdl/interface/rbdl/model.h | 50 ++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/bridges/rbdl/interface/rbdl/model.h b/bridges/rbdl/interface/rbdl/model.h
index 17fc7c4..119d565 100644
--- a/bridges/rbdl/interface/rbdl/model.h
+++ b/bridges/rbdl/interface/rbdl/model.h
@@ -190,7 +190,7 @@ namespace humoto
                 {
                     LinkId id = getLinkId(link_string_id);
                     boost::shared_ptr<TagPoint> ptr(new TagPoint(   id,
-                                                                    rbdl_model_.mBodies[id].mCenterOfMass));
+                                                                    getLinkCoM(id)));
                     return(ptr);
                 }
 
@@ -213,7 +213,7 @@ namespace humoto
                     {
                         link_ids[i] = getLinkId(link_string_ids[i]);
 
-                        total_mass += rbdl_model_.mBodies[link_ids[i]].mMass;
+                        total_mass += getLinkMass(link_ids[i]);
                     }
 
                     boost::shared_ptr<TagPartialCoM> ptr(new  TagPartialCoM(link_ids, total_mass));
@@ -252,8 +252,8 @@ namespace humoto
                         LinkId  id = tag->link_ids_[i];
 
                         com_position.noalias() +=
-                            rbdl_model_.mBodies[id].mMass
-                            * getPointTagPosition(id, rbdl_model_.mBodies[id].mCenterOfMass);
+                            getLinkMass(id)
+                            * getPointTagPosition(id, getLinkCoM(id));
 
                         /*
                         com_position.noalias() +=
@@ -426,7 +426,7 @@ namespace humoto
                  */
                 double getTagMass(const TagLinkPtr  tag) const
                 {
-                    return (rbdl_model_.mBodies[tag->link_id_].mMass);
+                    return (getLinkMass(tag->link_id_));
                 }
 
 
@@ -448,15 +448,15 @@ namespace humoto
                     {
                         LinkId id = tag->link_ids_[i];
 
-                        getTagJacobian<SpatialType::TRANSLATION>(jacobian_i, id, rbdl_model_.mBodies[id].mCenterOfMass);
+                        getTagJacobian<SpatialType::TRANSLATION>(jacobian_i, id, getLinkCoM(id));
 
                         if (i == 0)
                         {
-                            jacobian.noalias() = jacobian_i * rbdl_model_.mBodies[id].mMass;
+                            jacobian.noalias() = jacobian_i * getLinkMass(id);
                         }
                         else
                         {
-                            jacobian.noalias() += jacobian_i * rbdl_model_.mBodies[id].mMass;
+                            jacobian.noalias() += jacobian_i * getLinkMass(id);
                         }
                     }
 
@@ -734,6 +734,40 @@ namespace humoto
 
 
 
+                /**
+                 * @brief Mass of a link
+                 *
+                 * @param[in] link_id
+                 *
+                 * @return mass, masses of the links which are fixed to a movable link are included
+                 */
+                double getLinkMass(const std::size_t link_id) const
+                {
+                    if (isLinkFixed(link_id))
+                    {
+                        return (rbdl_model_.mFixedBodies[link_id - rbdl_model_.fixed_body_discriminator].mMass);
+                    }
+                    return (rbdl_model_.mBodies[link_id].mMass);
+                }
+
+
+                /**
+                 * @brief CoM of a link
+                 *
+                 * @param[in] link_id
+                 *
+                 * @return position in the frame of the link
+                 */
+                etools::Vector3 getLinkCoM(const std::size_t link_id) const
+                {
+                    if (isLinkFixed(link_id))
+                    {
+                        return (rbdl_model_.mFixedBodies[link_id - rbdl_model_.fixed_body_discriminator].mCenterOfMass);
+                    }
+                    return (rbdl_model_.mBodies[link_id].mCenterOfMass);
+                }
+
+
                 /**
                  * @brief Determines id of a body based on its string id.
                  *
-- 
2.43.0


From a7d22faba47522067b155ed159ebe70816ce5b46 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:45:13 +0000
Subject: [PATCH 47/58] fix: check the root in transitions of the whole body
 model

---
 modules/pepper_ik/include/pepper_ik/model.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/pepper_ik/include/pepper_ik/model.h b/modules/pepper_ik/include/pepper_ik/model.h
index 4513aaf..709fea1 100644
--- a/modules/pepper_ik/include/pepper_ik/model.h
+++ b/modules/pepper_ik/include/pepper_ik/model.h
@@ -685,8 +685,8 @@ namespace humoto
                     etools::Vector3 root_from;
                     etools::Vector3 root_to;
 
-                    ModelDescription<t_features>::getRootPosition(root_from, generalized_coordinates_from.joint_angles_);
-                    ModelDescription<t_features>::getRootPosition(root_to, generalized_coordinates_to.joint_angles_);
+                    ModelDescription<t_features>::getRootPosition(root_from, generalized_coordinates_from.root_pose_);
+                    ModelDescription<t_features>::getRootPosition(root_to, generalized_coordinates_to.root_pose_);
 
                     if (! root_from.isApprox(root_to, error_tol))
                     {
-- 
2.43.0


From 85f1cb8e96c7e2ea8076cf42793adb2edcbf068e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:48:30 +0000
Subject: [PATCH 48/58] fix: compute yaw of the base correctly

---
 modules/pepper_ik/include/pepper_ik/model.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/pepper_ik/include/pepper_ik/model.h b/modules/pepper_ik/include/pepper_ik/model.h
index 709fea1..fed20e0 100644
--- a/modules/pepper_ik/include/pepper_ik/model.h
+++ b/modules/pepper_ik/include/pepper_ik/model.h
@@ -437,7 +437,8 @@ namespace humoto
                  */
                 double getBaseYaw() const
                 {
-                    return (convertMatrixToEulerAngles(getBaseOrientation(), rigidbody::EulerAngles::RPY).z());
+                    const etools::Matrix3 & orientation = getBaseOrientation();
+                    return (std::atan2(orientation(1,0), orientation(0,0)));
                 }
 
 
-- 
2.43.0


From 90df5325962bf8b830b1bf396d7b520943678b69 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:54:55 +0000
Subject: [PATCH 49/58] fix: return state of the model from the whole body
 controller

---
 modules/pepper_ik/include/pepper_ik/whole_body_controller.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/pepper_ik/include/pepper_ik/whole_body_controller.h b/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
index d04acda..c9a82e8 100644
--- a/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
+++ b/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
@@ -310,7 +310,7 @@ namespace humoto
                         const humoto::pepper_ik::Model<t_features>                      &model) const
                 {
                     HUMOTO_ASSERT(solution_is_parsed_ == true, "This function can be called only after the solution is parsed.");
-                    return(model.state_);
+                    return(model.getState());
                 }
 
 
-- 
2.43.0


From f68e5a3e26138e6707112b0cec386af08aacd5fc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:54:56 +0000
Subject: [PATCH 50/58] fix: reset all parameters of tasks of pepper_ik before
 reading configuration

---
 modules/pepper_ik/include/pepper_ik/task_bodycom.h        | 1 +
 modules/pepper_ik/include/pepper_ik/task_tagangularvel.h  | 2 ++
 modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h | 2 ++
 modules/pepper_ik/include/pepper_ik/task_tagorient.h      | 3 +++
 modules/pepper_ik/include/pepper_ik/task_tagpose.h        | 2 ++
 modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h    | 2 ++
 6 files changed, 12 insertions(+)

diff --git a/modules/pepper_ik/include/pepper_ik/task_bodycom.h b/modules/pepper_ik/include/pepper_ik/task_bodycom.h
index c35485d..890db1d 100644
--- a/modules/pepper_ik/include/pepper_ik/task_bodycom.h
+++ b/modules/pepper_ik/include/pepper_ik/task_bodycom.h
@@ -36,6 +36,7 @@ namespace humoto
                 {
                     TaskAB::setDefaults();
                     k_position_gain_ = 0.0;
+                    axis_flag_ = AxisIndex::FLAG_X | AxisIndex::FLAG_Y | AxisIndex::FLAG_Z;
                 }
 
 
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h b/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h
index f1c2c1d..6be6fc3 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h
@@ -38,6 +38,8 @@ namespace humoto
                 {
                     TaskAB::setDefaults();
                     k_angular_velocity_gain_ = 0.0;
+                    tag_string_id_.clear();
+                    tag_.reset();
                 }
 
 
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h b/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
index 18d3ac3..f97bc99 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
@@ -38,6 +38,8 @@ namespace humoto
                 {
                     TaskAB::setDefaults();
                     k_complete_velocity_gain_ = 0.0;
+                    tag_string_id_.clear();
+                    tag_.reset();
                 }
 
 
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagorient.h b/modules/pepper_ik/include/pepper_ik/task_tagorient.h
index 2a51700..c9c062a 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagorient.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagorient.h
@@ -40,6 +40,9 @@ namespace humoto
                 {
                     TaskAB::setDefaults();
                     k_orientation_gain_ = 0.0;
+                    tag_string_id_.clear();
+                    reference_rpy_.setZero();
+                    tag_.reset();
                 }
 
 
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagpose.h b/modules/pepper_ik/include/pepper_ik/task_tagpose.h
index 2a7bd9b..06f3824 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagpose.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagpose.h
@@ -38,6 +38,8 @@ namespace humoto
                 {
                     TaskAB::setDefaults();
                     k_pose_gain_ = 0.0;
+                    tag_string_id_.clear();
+                    tag_.reset();
                 }
 
 
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h b/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h
index ca8c8b3..96c1272 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h
@@ -40,6 +40,8 @@ namespace humoto
                 {
                     TaskAB::setDefaults();
                     k_pose_gain_ = 0.0;
+                    tag_string_id_.clear();
+                    tag_.reset();
                 }
 
 
-- 
2.43.0


From 6fe30c53d1534e4fcba8de3137ae9a0eef863997 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:54:56 +0000
Subject: [PATCH 51/58] fix: use velocity of the tag in the pose and velocity
 tasks of pepper_ik

---
 .../include/pepper_ik/task_tagcompletevel.h         | 13 +++++++++----
 .../include/pepper_ik/whole_body_controller.h       |  5 ++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h b/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
index f97bc99..0e71fab 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
@@ -93,10 +93,15 @@ namespace humoto
 
                     model.getTagCompleteJacobian(A, tag_);
                     
-                    b.noalias() = k_complete_velocity_gain_ * 
-                            wb_controller.getTagVelocityInGlobal(model, tag_string_id_,
-                                      wb_controller.getTagVelocityInLocal(tag_string_id_, rbdl::SpatialType::COMPLETE),
-                                        rbdl::SpatialType::COMPLETE);
+                    // the Jacobian corresponds to the velocity of the tag
+                    // (not of the origin of the global frame)
+                    const etools::Matrix3 orientation = model.getTagOrientation(tag_);
+
+                    b.resize(6);
+                    b.head(3) = k_complete_velocity_gain_ * orientation *
+                                    wb_controller.getTagVelocityInLocal(tag_string_id_, rbdl::SpatialType::ROTATION);
+                    b.tail(3) = k_complete_velocity_gain_ * orientation *
+                                    wb_controller.getTagVelocityInLocal(tag_string_id_, rbdl::SpatialType::TRANSLATION);
 
                     if(!isApproximatelyEqual(1.0, getGain()))
                     {
diff --git a/modules/pepper_ik/include/pepper_ik/whole_body_controller.h b/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
index c9a82e8..9e1d936 100644
--- a/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
+++ b/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
@@ -175,10 +175,9 @@ namespace humoto
                                                                                  rigidbody::EulerAngles::RPY);
 
                         tag_pose.tail(part_size) = model.getTagPosition(tag) + wbc_parameters_.control_interval_ *
-                                                                    getTagVelocityInGlobal(model, i->first,
+                                                                    model.getTagOrientation(tag) *
                                                                       getTagVelocityInLocal(i->first,
-                                                                             rbdl::SpatialType::COMPLETE),
-                                                                                rbdl::SpatialType::TRANSLATION); 
+                                                                             rbdl::SpatialType::TRANSLATION);
                         
                         tags_desired_pose_global_[i->first] = tag_pose;
                     }
-- 
2.43.0


From 64588ab540936e314d43ee6168a0bd297adb344c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:24:41 +0000
Subject: [PATCH 52/58] fix: leave nodes of YAML configuration files when
 reading fails

---
 .../interface/config_yaml/reader.h            | 35 ++++++++++++++-----
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/bridges/config_yaml/interface/config_yaml/reader.h b/bridges/config_yaml/interface/config_yaml/reader.h
index ef54f35..906d65c 100644
--- a/bridges/config_yaml/interface/config_yaml/reader.h
+++ b/bridges/config_yaml/interface/config_yaml/reader.h
@@ -36,6 +36,23 @@ namespace humoto
 
 
                 private:
+                    /**
+                     * @brief Leaves a node on destruction, also when an exception is thrown.
+                     */
+                    class NodeGuard
+                    {
+                        private:
+                            Reader & reader_;
+
+                        public:
+                            explicit NodeGuard(Reader & reader) : reader_(reader) {}
+                            ~NodeGuard()
+                            {
+                                reader_.ascend();
+                            }
+                    };
+
+
                     /**
                      * @brief open configuration file
                      *
@@ -144,6 +161,8 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeGuard node_guard(*this);
+
                             HUMOTO_ASSERT(  (getCurrentNode()->Type() == YAML::NodeType::Sequence),
                                             "[Config] Entry is not a sequence.");
 
@@ -161,8 +180,6 @@ namespace humoto
                             {
                                 (*getCurrentNode())[i] >> entry(i);
                             }
-
-                            ascend();
                         }
                         else
                         {
@@ -197,6 +214,8 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeGuard node_guard(*this);
+
                             humoto::EigenIndex num_rows;
                             humoto::EigenIndex num_cols;
 
@@ -217,8 +236,6 @@ namespace humoto
                                                                                 num_rows,
                                                                                 num_cols);
                             entry = map;
-
-                            ascend();
                         }
                         else
                         {
@@ -246,6 +263,8 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeGuard node_guard(*this);
+
                             HUMOTO_ASSERT(  (getCurrentNode()->Type() == YAML::NodeType::Sequence),
                                             "[Config] Entry is not a sequence.");
 
@@ -255,8 +274,6 @@ namespace humoto
                             {
                                 (*getCurrentNode())[i] >> entry[i];
                             }
-
-                            ascend();
                         }
                         else
                         {
@@ -285,8 +302,9 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeGuard node_guard(*this);
+
                             *getCurrentNode() >> entry;
-                            ascend();
                         }
                         else
                         {
@@ -315,11 +333,12 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeGuard node_guard(*this);
+
                             int tmp_value = 0;
                             *getCurrentNode() >> tmp_value;
 
                             entry = static_cast<t_EnumerationType> (tmp_value);
-                            ascend();
                         }
                         else
                         {
-- 
2.43.0


From dfba9eedb61f6b708996415eded50dfc3a1f89b7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:24:41 +0000
Subject: [PATCH 53/58] fix: check sizes of matrices in YAML configuration
 files

---
 .../config_yaml/interface/config_yaml/reader.h   | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/bridges/config_yaml/interface/config_yaml/reader.h b/bridges/config_yaml/interface/config_yaml/reader.h
index 906d65c..45b4cb1 100644
--- a/bridges/config_yaml/interface/config_yaml/reader.h
+++ b/bridges/config_yaml/interface/config_yaml/reader.h
@@ -226,8 +226,22 @@ namespace humoto
                             Eigen::VectorXd v;
                             readCompound(v, "data", true);
 
-                            HUMOTO_ASSERT(  v.rows() == num_rows*num_cols,
+                            HUMOTO_ASSERT(  (num_rows >= 0) && (num_cols >= 0),
                                             std::string("Inconsistent configuration file entry: ") + entry_name);
+                            if (num_cols > 0)
+                            {
+                                // avoid multiplication, which may overflow
+                                HUMOTO_ASSERT(  (v.rows() % num_cols == 0) && (v.rows() / num_cols == num_rows),
+                                                std::string("Inconsistent configuration file entry: ") + entry_name);
+                            }
+                            else
+                            {
+                                HUMOTO_ASSERT(  v.rows() == 0,
+                                                std::string("Inconsistent configuration file entry: ") + entry_name);
+                            }
+                            HUMOTO_ASSERT(  ((Eigen::Dynamic == t_rows) || (num_rows == t_rows))
+                                            && ((Eigen::Dynamic == t_cols) || (num_cols == t_cols)),
+                                            std::string("Wrong matrix size in the configuration file entry: ") + entry_name);
 
                             Eigen::Map< Eigen::Matrix<  double,
                                                         Eigen::Dynamic,
-- 
2.43.0


From 9a9bdb006a5cff089d5f3d7aa7b5a019f1ff338e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:24:41 +0000
Subject: [PATCH 54/58] fix: check that there is input in the YAML reader

---
 bridges/config_yaml/interface/config_yaml/reader.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bridges/config_yaml/interface/config_yaml/reader.h b/bridges/config_yaml/interface/config_yaml/reader.h
index 45b4cb1..7b09e3e 100644
--- a/bridges/config_yaml/interface/config_yaml/reader.h
+++ b/bridges/config_yaml/interface/config_yaml/reader.h
@@ -118,6 +118,12 @@ namespace humoto
                      */
                     bool descend(const std::string & child_name)
                     {
+                        if (node_stack_.empty())
+                        {
+                            // there is no input
+                            return(false);
+                        }
+
                         const YAML::Node * child = getCurrentNode()->FindValue(child_name);
 
                         if (child == NULL)
-- 
2.43.0


From 839ce77bad88a571ea2b9a0b2039082792b5a8fa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:24:41 +0000
Subject: [PATCH 55/58] fix: write nested vectors to YAML configuration files

---
 bridges/config_yaml/interface/config_yaml/writer.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bridges/config_yaml/interface/config_yaml/writer.h b/bridges/config_yaml/interface/config_yaml/writer.h
index fe89f9a..783b0a6 100644
--- a/bridges/config_yaml/interface/config_yaml/writer.h
+++ b/bridges/config_yaml/interface/config_yaml/writer.h
@@ -199,10 +199,15 @@ namespace humoto
 
                         for(std::size_t i = 0; i < entry.size(); ++i)
                         {
+                            *emitter_ << YAML::Flow;
+                            *emitter_ << YAML::BeginSeq;
+
                             for(std::size_t j = 0; j < entry[i].size(); ++j)
                             {
                                 *emitter_ << entry[i][j];
                             }
+
+                            *emitter_ << YAML::EndSeq;
                         }
 
                         *emitter_ << YAML::EndSeq;
-- 
2.43.0


From 07095935948a3e4e306bbb72c35b89eae8f5bf7e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:24:41 +0000
Subject: [PATCH 56/58] fix: check that a YAML configuration file is open for
 writing

---
 bridges/config_yaml/interface/config_yaml/writer.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bridges/config_yaml/interface/config_yaml/writer.h b/bridges/config_yaml/interface/config_yaml/writer.h
index 783b0a6..1ca4f24 100644
--- a/bridges/config_yaml/interface/config_yaml/writer.h
+++ b/bridges/config_yaml/interface/config_yaml/writer.h
@@ -65,6 +65,11 @@ namespace humoto
                     explicit Writer(const std::string& file_name) :
                         config_ofs_(file_name.c_str())
                     {
+                        if (!config_ofs_.good())
+                        {
+                            HUMOTO_THROW_MSG(std::string("Could not open configuration file for writing: ") +  file_name.c_str());
+                        }
+
                         initEmitter();
                     }
 
-- 
2.43.0


From 4111ee9da19f80732a2febd298386b6a903969c4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:26:22 +0000
Subject: [PATCH 57/58] fix: do not write empty maps on repeated flush of YAML
 configurations

---
 bridges/config_yaml/interface/config_yaml/writer.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bridges/config_yaml/interface/config_yaml/writer.h b/bridges/config_yaml/interface/config_yaml/writer.h
index 1ca4f24..f7b8da2 100644
--- a/bridges/config_yaml/interface/config_yaml/writer.h
+++ b/bridges/config_yaml/interface/config_yaml/writer.h
@@ -28,6 +28,9 @@ namespace humoto
                     /// instance of YAML emitter, is destroyed and reinitialized by flush()
                     YAML::Emitter   *emitter_;
 
+                    /// size of the output of the emitter when nothing is written yet
+                    std::size_t     empty_size_;
+
 
                 private:
                     /**
@@ -42,6 +45,7 @@ namespace humoto
                             *emitter_ << YAML::Newline;
                         }
                         *emitter_ << YAML::BeginMap;
+                        empty_size_ = emitter_->size();
                     }
 
 
@@ -281,8 +285,12 @@ namespace humoto
                      */
                     void flush()
                     {
-                        destroyEmitter();
-                        initEmitter();
+                        // an empty map in addition to other maps is malformed
+                        if (emitter_->size() != empty_size_)
+                        {
+                            destroyEmitter();
+                            initEmitter();
+                        }
                     }
             };
         }
-- 
2.43.0


From 3f3421d026355e9e94fccb32f062c42c3d2f18c1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:26:22 +0000
Subject: [PATCH 58/58] fix: flush the file in flush() of the YAML writer

---
 bridges/config_yaml/interface/config_yaml/writer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bridges/config_yaml/interface/config_yaml/writer.h b/bridges/config_yaml/interface/config_yaml/writer.h
index f7b8da2..836d511 100644
--- a/bridges/config_yaml/interface/config_yaml/writer.h
+++ b/bridges/config_yaml/interface/config_yaml/writer.h
@@ -291,6 +291,7 @@ namespace humoto
                             destroyEmitter();
                             initEmitter();
                         }
+                        config_ofs_.flush();
                     }
             };
         }
-- 
2.43.0

