From 28c6d7060d24406ffa5087a08b9d3e18a48dd26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 01/43] fix: initialise the extruder count before position(int)
 compares against it

---
 GcodeProcessorLib/position.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GcodeProcessorLib/position.cpp b/GcodeProcessorLib/position.cpp
index d9cd3a8..25575fd 100644
--- a/GcodeProcessorLib/position.cpp
+++ b/GcodeProcessorLib/position.cpp
@@ -214,6 +214,7 @@ position::position(int extruder_count)
 	is_in_bounds = true;
 	current_tool = 0;
 	p_extruders = NULL;
+	num_extruders = 0;
 	set_num_extruders(extruder_count);
 	
 }
-- 
2.43.0


From 9bbd993120f2b787be5c4acb675f2dc4a2dc9a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:53 +0000
Subject: [PATCH 02/43] fix: never merge a travel move and an extruding move
 into one arc

---
 ArcWelder/segmented_arc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index bc17ef8..5709a1a 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -155,8 +155,8 @@ bool segmented_arc::try_add_point(printer_point p)
       return false;
     }
 
-    // If we have more than 2 points, we need to make sure the current and previous moves are all of the same type.
-    if (points_.count() > 2)
+    // If we have more than 1 point (the start point), we need to make sure the current and previous moves are all of the same type.
+    if (points_.count() > 1)
     {
       // TODO:  Do we need this?
       // We already have at least an initial point and a second point.  Make cure the current point and the previous are either both
-- 
2.43.0


From 113789f13a004976a237a458ba7155cb7a28247d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:17 +0000
Subject: [PATCH 03/43] fix: do not read the previous position after the
 position list was reallocated

---
 ArcWelder/arc_welder.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index c68fdc0..14f23a3 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -618,11 +618,6 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
     arc_added = current_arc_.try_add_point(p);
     if (arc_added)
     {
-      // Make sure our position list is large enough to handle all the segments
-      if (current_arc_.get_num_segments() + 2 > p_source_position_->get_max_positions())
-      {
-        p_source_position_->grow_max_positions(p_source_position_->get_max_positions() * 2);
-      }
       if (!waiting_for_arc_)
       {
         waiting_for_arc_ = true;
@@ -639,6 +634,12 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
 
         }
       }
+      // Make sure our position list is large enough to handle all the segments.  This moves the stored positions, 
+      // so p_cur_pos and p_pre_pos must not be used afterwards.
+      if (current_arc_.get_num_segments() + 2 > p_source_position_->get_max_positions())
+      {
+        p_source_position_->grow_max_positions(p_source_position_->get_max_positions() * 2);
+      }
     }
   }
   else {
-- 
2.43.0


From 93619d938077a44e9a77efdecb03313500e743bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:17 +0000
Subject: [PATCH 04/43] fix: write the pending arc when the file ends with an
 empty line

---
 ArcWelder/arc_welder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 14f23a3..00caf10 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -735,7 +735,7 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
     previous_extrusion_rate_ = 0;
   }
 
-  if (!arc_added && !(cmd.is_empty && cmd.comment.length() == 0))
+  if (!arc_added && (is_end || !(cmd.is_empty && cmd.comment.length() == 0)))
   {
     if (current_arc_.get_num_segments() < current_arc_.get_min_segments()) {
       if (debug_logging_enabled_ && !cmd.is_empty)
-- 
2.43.0


From f4ea054f37d368f941169a617322d3c128a78fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:52 +0000
Subject: [PATCH 05/43] fix: keep the comments of all merged moves when there
 are empty lines in between

---
 ArcWelder/arc_welder.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 00caf10..5320e39 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -873,7 +873,15 @@ std::string arc_welder::get_comment_for_arc()
 {
   // build a comment string from the commands making up the arc
         // We need to start with the first command entered.
-  int comment_index = unwritten_commands_.count() - (current_arc_.get_num_segments() - 1);
+  int comment_index = unwritten_commands_.count();
+  // Only movements are arc segments, there can be empty lines in between.
+  for (int num_segments = current_arc_.get_num_segments() - 1; num_segments > 0 && comment_index > 0; )
+  {
+    if (unwritten_commands_[--comment_index].is_g0_g1)
+    {
+      num_segments--;
+    }
+  }
   std::string comment;
   for (; comment_index < unwritten_commands_.count(); comment_index++)
   {
-- 
2.43.0


From 00148d97eb3f82c941807536ecb24a3a74445ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:52 +0000
Subject: [PATCH 06/43] fix: derive the firmware's segment count from the
 length of a segment

---
 ArcWelder/segmented_arc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index 5709a1a..45e1550 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -243,7 +243,7 @@ bool segmented_arc::try_add_point_internal_(printer_point p)
       // See how many arcs will be interpolated
       double circumference = 2.0 * PI_DOUBLE * current_arc_.radius;
       // TODO: Should this be ceil?
-      int num_segments = (int)utilities::floor(circumference / min_arc_segments_);
+      int num_segments = (int)utilities::floor(circumference / mm_per_arc_segment_);
       if (num_segments < min_arc_segments_) {
         //num_segments = (int)std::ceil(circumference/approximate_length) * (int)std::ceil(approximate_length / mm_per_arc_segment);
         // TODO: Should this be ceil?
-- 
2.43.0


From 9560ef3663f50ff0c31bd00673d749d0d4a635f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:44 +0000
Subject: [PATCH 07/43] fix: reject 3D arcs whose points leave the helix,
 including at the last segment

---
 ArcWelder/segmented_shape.cpp | 64 +++++++++++++++++------------------
 ArcWelder/segmented_shape.h   |  2 ++
 2 files changed, 34 insertions(+), 32 deletions(-)

diff --git a/ArcWelder/segmented_shape.cpp b/ArcWelder/segmented_shape.cpp
index 3da264c..7fb52fc 100644
--- a/ArcWelder/segmented_shape.cpp
+++ b/ArcWelder/segmented_shape.cpp
@@ -265,31 +265,42 @@ double circle::get_polar_radians(const point& p1) const
   return polar_radians;
 }
 
+bool circle::is_over_z_deviation(const array_list<printer_point>& points, const double resolution_mm)
+{
+  // The printer moves Z at a constant rate along the arc, so the z steps must be constant per linear travel unit
+  double total_distance = 0;
+  for (int index = 1; index < points.count(); index++)
+  {
+    total_distance += utilities::get_cartesian_distance(points[index - 1].x, points[index - 1].y, points[index].x, points[index].y);
+  }
+  const double z_start = points[0].z;
+  const double z_change = points[points.count() - 1].z - z_start;
+  double distance = 0;
+  for (int index = 1; index < points.count() - 1; index++)
+  {
+    distance += utilities::get_cartesian_distance(points[index - 1].x, points[index - 1].y, points[index].x, points[index].y);
+    if (utilities::abs(points[index].z - (z_start + z_change * distance / total_distance)) > resolution_mm)
+    {
+      return true;
+    }
+  }
+  return false;
+}
+
 bool circle::get_deviation_sum_squared(const array_list<printer_point>& points, const double resolution_mm, const double xyz_tolerance, const bool allow_3d_arcs, double &total_deviation)
 {
-  // We need to ensure that the Z steps are constand per linear travel unit
-  double z_step_per_distance = 0;
   total_deviation = 0;
+  if (allow_3d_arcs && circle::is_over_z_deviation(points, resolution_mm))
+  {
+    // The z step is uneven, can't create arc
+    return false;
+  }
   // Skip the first and last points since they will fit perfectly.
   for (int index = 1; index < points.count() - 1; index++)
   {
     // Make sure the length from the center of our circle to the test point is 
     // at or below our max distance.
     double distance_from_center = utilities::get_cartesian_distance(points[index].x, points[index].y, center.x, center.y);
-    if (allow_3d_arcs) {
-      double z1 = points[index - 1].z;
-      double z2 = points[index].z;
-
-      double current_z_stepper_distance = (z2 - z1) / distance_from_center;
-      if (index == 1) {
-        z_step_per_distance = current_z_stepper_distance;
-      }
-      else if (!utilities::is_equal(z_step_per_distance, current_z_stepper_distance, xyz_tolerance))
-      {
-        // The z step is uneven, can't create arc				
-        return false;
-      }
-    }
     double deviation = utilities::abs(distance_from_center - radius);
     total_deviation += deviation * deviation;
     if (deviation > resolution_mm)
@@ -318,8 +329,11 @@ bool circle::get_deviation_sum_squared(const array_list<printer_point>& points,
 
 bool circle::is_over_deviation(const array_list<printer_point>& points, const double resolution_mm, const double xyz_tolerance, const bool allow_3d_arcs)
 {
-  // We need to ensure that the Z steps are constand per linear travel unit
-  double z_step_per_distance = 0;
+  if (allow_3d_arcs && circle::is_over_z_deviation(points, resolution_mm))
+  {
+    // The z step is uneven, can't create arc
+    return true;
+  }
   // shared point to test
   point point_to_test;
   int max_index = points.count() - 1;
@@ -332,20 +346,6 @@ bool circle::is_over_deviation(const array_list<printer_point>& points, const do
       // Make sure the length from the center of our circle to the test point is 
       // at or below our max distance.
       double distance_from_center = utilities::get_cartesian_distance(current_point.x, current_point.y, center.x, center.y);
-      if (allow_3d_arcs) {
-        double z1 = points[index - 1].z;
-        double z2 = current_point.z;
-
-        double current_z_stepper_distance = (z2 - z1) / distance_from_center;
-        if (index == 1) {
-          z_step_per_distance = current_z_stepper_distance;
-        }
-        else if (!utilities::is_equal(z_step_per_distance, current_z_stepper_distance, xyz_tolerance))
-        {
-          // The z step is uneven, can't create arc				
-          return true;
-        }
-      }
       if (utilities::abs(distance_from_center - radius) > resolution_mm)
       {
         return true;
diff --git a/ArcWelder/segmented_shape.h b/ArcWelder/segmented_shape.h
index d466a42..a215d28 100644
--- a/ArcWelder/segmented_shape.h
+++ b/ArcWelder/segmented_shape.h
@@ -129,6 +129,8 @@ struct circle {
 
 	point get_closest_point(const point& p) const;
 
+	static bool is_over_z_deviation(const array_list<printer_point>& points, const double resolution_mm);
+
 	bool is_over_deviation(const array_list<printer_point>& points, const double resolution_mm, const double xyz_tolerance, const bool allow_3d_arcs);
 	
 	bool get_deviation_sum_squared(const array_list<printer_point>& points, const double resolution_mm, const double xyz_tolerance, const bool allow_3d_arcs, double& sum_deviation);
-- 
2.43.0


From 0e03dd9771990185dcca29fe16b7d4718168ef0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:21 +0000
Subject: [PATCH 08/43] fix: keep the source file when an in-place run is
 cancelled or fails, and report I/O errors

---
 ArcWelder/arc_welder.cpp | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 5320e39..a5a2246 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -353,10 +353,33 @@ arc_welder_results arc_welder::process()
   on_progress_(final_progress);
 
   p_logger_->log(logger_type_, log_levels::DEBUG, "Closing source and target files.");
+  const bool read_failed = gcodeFile.bad();
   output_file_.close();
   gcodeFile.close();
 
-  if (overwrite_source_file)
+  results.success = continue_processing;
+  results.cancelled = !continue_processing;
+  results.progress = final_progress;
+  if (read_failed)
+  {
+    results.success = false;
+    results.message = "Unable to read the source file.";
+    p_logger_->log_exception(logger_type_, results.message);
+  }
+  else if (output_file_.fail())
+  {
+    results.success = false;
+    results.message = "Unable to write the target file.";
+    p_logger_->log_exception(logger_type_, results.message);
+  }
+
+  if (overwrite_source_file && !results.success)
+  {
+    // The target is incomplete, keep the source file.
+    p_logger_->log(logger_type_, log_levels::DEBUG, "Processing did not complete.  The source file will not be overwritten.");
+    std::remove(target_path_.c_str());
+  }
+  else if (overwrite_source_file)
   {
     stream.clear();
     stream.str("");
@@ -364,15 +387,18 @@ arc_welder_results arc_welder::process()
     p_logger_->log(logger_type_, log_levels::DEBUG, stream.str());
     stream.clear();
     stream.str("");
-    std::remove(source_path_.c_str());
+    bool replaced = std::remove(source_path_.c_str()) == 0;
     stream << "Renaming temporary file at '" << target_path_ << "' to '" << source_path_ << "'.";
     p_logger_->log(0, log_levels::DEBUG, stream.str());
-    std::rename(target_path_.c_str(), source_path_.c_str());
+    replaced = replaced && std::rename(target_path_.c_str(), source_path_.c_str()) == 0;
+    if (!replaced)
+    {
+      results.success = false;
+      results.message = "Unable to replace the source file.  The processed file was written to '" + target_path_ + "'.";
+      p_logger_->log_exception(logger_type_, results.message);
+    }
   }
 
-  results.success = continue_processing;
-  results.cancelled = !continue_processing;
-  results.progress = final_progress;
   p_logger_->log(logger_type_, log_levels::DEBUG, "Returning processing results.");
 
   return results;
-- 
2.43.0


From b86561e5febf24b99cbcac133861107529886517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:29 +0000
Subject: [PATCH 09/43] fix: keep the flow rate of the current arc when it is
 continued after a blank line

---
 ArcWelder/arc_welder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index a5a2246..eb083db 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -757,8 +757,11 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
       }
     }
 
-    // Reset the previous extrusion rate
-    previous_extrusion_rate_ = 0;
+    // Reset the previous extrusion rate, except for blank lines, which do not end the current arc.
+    if (is_end || !(cmd.is_empty && cmd.comment.length() == 0))
+    {
+      previous_extrusion_rate_ = 0;
+    }
   }
 
   if (!arc_added && (is_end || !(cmd.is_empty && cmd.comment.length() == 0)))
-- 
2.43.0


From 2c873c1ecc2576a65c8d6d4c1ecc18b384a2f148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:41 +0000
Subject: [PATCH 10/43] fix: keep the UltiGCode marker line first in files with
 CRLF line ends

---
 ArcWelder/arc_welder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index eb083db..7b63b26 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -280,7 +280,7 @@ arc_welder_results arc_welder::process()
 // This comment MUST be preserved as the first line for ultimakers, else things won't work
     if (lines_processed_ == 1)
     {
-      bool isUltiGCode = line == ";FLAVOR:UltiGCode";
+      bool isUltiGCode = line == ";FLAVOR:UltiGCode" || line == ";FLAVOR:UltiGCode\r";
       bool isPrusaSlicer = line.rfind("; generated by PrusaSlicer", 0) == 0;
       if (isUltiGCode || isPrusaSlicer)
       {
-- 
2.43.0


From 6d12e97bab5901e3071faf05224ebdf8c816b1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 11/43] fix: keep the comment of an @OCTOLAPSE command without
 parameters

---
 GcodeProcessorLib/gcode_parser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index 1a4b928..7909362 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -186,13 +186,13 @@ bool gcode_parser::try_parse_gcode(const char * gcode, parsed_command & command,
 			
 			parsed_command_parameter octolapse_parameter;
 
-			if (!try_extract_octolapse_parameter(&p, &octolapse_parameter))
+			bool has_parameter = try_extract_octolapse_parameter(&p, &octolapse_parameter);
+			if (has_parameter)
 			{
-				return true;
+				command.parameters.push_back(octolapse_parameter);
 			}
-			command.parameters.push_back(octolapse_parameter);
 			// Extract any additional parameters the old way
-			while (true)
+			while (has_parameter)
 			{
 				//std::cout << "GcodeParser.try_parse_gcode - Trying to extract parameters.\r\n";
 				parsed_command_parameter param;
-- 
2.43.0


From 0192786e2859dbac18178336c2a803f1773f0bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:20 +0000
Subject: [PATCH 12/43] fix: do not read the next parameter as the text of a
 parameter without a value

---
 GcodeProcessorLib/gcode_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index 7909362..9950006 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -598,6 +598,11 @@ bool gcode_parser::try_extract_parameter(char ** p_p_gcode, parsed_command_param
 	{
 		parameter->value_type = 'F';
 	}
+	else if (*p == ' ')
+	{
+		// A letter without a value (e.g. the axes of G28 X Y).  The next parameter must not become its text.
+		parameter->value_type = 'S';
+	}
 	else
 	{
 		if(try_extract_text_parameter(&p, &(parameter->string_value)))
-- 
2.43.0


From d6df34b42a84ef784b492e37e7056747d32af91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:38 +0000
Subject: [PATCH 13/43] fix: a tool number that does not fit selects the last
 tool instead of overflowing

---
 GcodeProcessorLib/gcode_parser.cpp   | 7 +++++--
 GcodeProcessorLib/gcode_position.cpp | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index 9950006..e1eddd5 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -22,6 +22,7 @@
 
 #include "gcode_parser.h"
 #include "utilities.h"
+#include <climits>
 #include <cmath>
 #include <iostream>
 gcode_parser::gcode_parser()
@@ -399,7 +400,7 @@ bool gcode_parser::try_extract_at_command(char ** p_p_gcode, std::string * p_com
 
 bool gcode_parser::try_extract_unsigned_long(char ** p_p_gcode, unsigned long * p_value) {
 	char * p = *p_p_gcode;
-	unsigned int r = 0;
+	unsigned long r = 0;
 	bool found_numbers = false;
 	// skip any leading whitespace
 	while (*p == ' ')
@@ -409,7 +410,9 @@ bool gcode_parser::try_extract_unsigned_long(char ** p_p_gcode, unsigned long *
 		if (*p != ' ')
 		{
 			found_numbers = true;
-			r = static_cast<unsigned int>((r * 10.0) + (*p - '0'));
+			unsigned long digit = *p - '0';
+			// stop at the largest possible value instead of overflowing
+			r = r > (ULONG_MAX - digit) / 10 ? ULONG_MAX : r * 10 + digit;
 		}
 		++p;
 	}
diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 3c60868..7b65555 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -22,6 +22,7 @@
 
 #include "gcode_position.h"
 #include "utilities.h"
+#include <climits>
 #include <algorithm>
 #include <iterator>
 #include <cmath>
@@ -1385,7 +1386,7 @@ void gcode_position::process_t(position* pos, parsed_command& cmd)
 		parsed_command_parameter p_cur_param = cmd.parameters[index];
 		if (p_cur_param.name == "T" && p_cur_param.value_type == 'U')
 		{
-			pos->current_tool = static_cast<int>(p_cur_param.unsigned_long_value);
+			pos->current_tool = p_cur_param.unsigned_long_value > INT_MAX ? INT_MAX : static_cast<int>(p_cur_param.unsigned_long_value);
 			if (!zero_based_extruder_)
 			{
 				pos->current_tool--;
-- 
2.43.0


From 29e4cba42ef173ba395042382ff1f5fb9715fadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 14/43] fix: G92 on an axis that is not homed takes the tool
 offset into account

---
 GcodeProcessorLib/gcode_position.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 7b65555..66a469b 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -1226,7 +1226,7 @@ void gcode_position::process_g92(position* pos, parsed_command& cmd)
 				pos->x_offset = pos->x - x + pos->x_firmware_offset;
 			else
 			{
-				pos->x = x;
+				pos->x = x - pos->x_firmware_offset;
 				pos->x_offset = 0;
 				pos->x_null = false;
 			}
@@ -1237,7 +1237,7 @@ void gcode_position::process_g92(position* pos, parsed_command& cmd)
 				pos->y_offset = pos->y - y + pos->y_firmware_offset;
 			else
 			{
-				pos->y = y;
+				pos->y = y - pos->y_firmware_offset;
 				pos->y_offset = 0;
 				pos->y_null = false;
 			}
@@ -1248,7 +1248,7 @@ void gcode_position::process_g92(position* pos, parsed_command& cmd)
 				pos->z_offset = pos->z - z + pos->z_firmware_offset;
 			else
 			{
-				pos->z = z;
+				pos->z = z - pos->z_firmware_offset;
 				pos->z_offset = 0;
 				pos->z_null = false;
 			}
-- 
2.43.0


From ce08c7e6068ce707827502262b2165e69744df4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 15/43] fix: formatting very small or very large numbers wrote
 past the buffer or dropped digits

---
 GcodeProcessorLib/fpconv.cpp  | 17 ++++++++++++-----
 GcodeProcessorLib/utilities.h |  3 ++-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/GcodeProcessorLib/fpconv.cpp b/GcodeProcessorLib/fpconv.cpp
index 9c2b8ee..b604550 100644
--- a/GcodeProcessorLib/fpconv.cpp
+++ b/GcodeProcessorLib/fpconv.cpp
@@ -334,10 +334,9 @@ static int emit_digits(char* digits, int ndigits, char* dest, int K, bool neg)
 
 static int emit_digits_decimal(char* digits, int ndigits, char* dest, int K, bool neg, unsigned char precision)
 {
-  int exp = absv(K + ndigits - 1);
-  unsigned char length = 0;
+  int length = 0;
   /* write plain integer */
-  if (K >= 0 && (exp < (ndigits + 7))) {
+  if (K >= 0) {
     memcpy(dest, digits, ndigits);
     memset(dest + ndigits, '0', K);
     // pad with 0s if we need to 
@@ -360,10 +359,19 @@ static int emit_digits_decimal(char* digits, int ndigits, char* dest, int K, boo
   int offset = ndigits - absv(K);
   
   // round the number in dest
-  unsigned char terminator_location;
+  int terminator_location;
   /* fp < 1.0 -> write leading zero */
   if (offset <= 0) {
     offset = -offset;
+    // digits behind the one that decides the rounding are not needed, and there is no room for all of them
+    // if the number is very small
+    if (offset > precision) {
+      offset = precision + 1;
+      ndigits = 0;
+    }
+    else if (ndigits > precision + 1 - offset) {
+      ndigits = precision + 1 - offset;
+    }
     dest[0] = '0';
     dest[1] = '.';
     memset(dest + 2, '0', offset);
@@ -391,7 +399,6 @@ static int emit_digits_decimal(char* digits, int ndigits, char* dest, int K, boo
   }
   
   
-  if (terminator_location < 24)
   {
     // Get the character at the terminator location
     // we will use this to determine if we need to round
diff --git a/GcodeProcessorLib/utilities.h b/GcodeProcessorLib/utilities.h
index f1f4ede..70c9d51 100644
--- a/GcodeProcessorLib/utilities.h
+++ b/GcodeProcessorLib/utilities.h
@@ -33,7 +33,8 @@
 #include <cstring>
 #include "fpconv.h"
 
-#define FPCONV_BUFFER_LENGTH 25
+// sign, up to 309 digits before the point, the point and up to 255 decimals, and the terminator
+#define FPCONV_BUFFER_LENGTH 600
 // Had to increase the zero tolerance because prusa slicer doesn't always 
 // retract enough while wiping.
 #define ZERO_TOLERANCE 0.000005
-- 
2.43.0


From 25fd8d3e65da7c1884df2f4adcdbb11bddccc997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 16/43] fix: predict the width of numbers whose scaled value
 exceeds the int range

---
 GcodeProcessorLib/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index d16f8f4..7e52d57 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -402,7 +402,7 @@ int utilities::get_num_digits(int x)
 int utilities::get_num_digits(double x, int precision)
 {
 	return get_num_digits(
-		(int)utilities::ceil(x * utilities::pow(10, precision) - .4999999999999)
+		utilities::ceil(x * utilities::pow(10, precision) - .4999999999999)
 		/ utilities::pow(10, precision)
 	);
 }
-- 
2.43.0


From b598e95f9f1c667df1494aa657cb39230c5d971d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 17/43] fix: circular_buffer::push_back counted every item
 twice

---
 GcodeProcessorLib/circular_buffer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/circular_buffer.h b/GcodeProcessorLib/circular_buffer.h
index 645234e..438a443 100644
--- a/GcodeProcessorLib/circular_buffer.h
+++ b/GcodeProcessorLib/circular_buffer.h
@@ -118,11 +118,15 @@ public:
 	{
 		int pos = get_index_position(count_);
 		items_[pos] = object;
-		count_++;
 		if (count_ != max_size_)
 		{
 			count_++;
 		}
+		else
+		{
+			// The front item was replaced, the next one is the front now
+			front_index_ = get_index_position(1);
+		}
 	}
 
 	T& pop_front()
-- 
2.43.0


From ec1c1d1f7f516b326b4c42320e08aa522f808a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 18/43] fix: copies of rotated lists and ring buffers held
 their items at the wrong indexes

---
 GcodeProcessorLib/array_list.h      | 1 -
 GcodeProcessorLib/circular_buffer.h | 1 -
 2 files changed, 2 deletions(-)

diff --git a/GcodeProcessorLib/array_list.h b/GcodeProcessorLib/array_list.h
index 1befaa6..89b3dfa 100644
--- a/GcodeProcessorLib/array_list.h
+++ b/GcodeProcessorLib/array_list.h
@@ -179,7 +179,6 @@ public:
 		{
 			items_[index] = source[index];
 		}
-		front_index_ = source.front_index_;
 		count_ = source.count_;
 	}
 
diff --git a/GcodeProcessorLib/circular_buffer.h b/GcodeProcessorLib/circular_buffer.h
index 438a443..2acf2c4 100644
--- a/GcodeProcessorLib/circular_buffer.h
+++ b/GcodeProcessorLib/circular_buffer.h
@@ -197,7 +197,6 @@ public:
 		{
 			items_[index] = source[index];
 		}
-		front_index_ = source.front_index_;
 		count_ = source.count_;
 	}
 
-- 
2.43.0


From afb627cd25dda591f755d40a954254dfdcf26c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 19/43] fix: marlin 2 and smoothieware arc expansion did not
 track the position between segments

---
 ArcWelderInverseProcessor/marlin_2.cpp     | 2 ++
 ArcWelderInverseProcessor/smoothieware.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index e70c043..54af4e5 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -604,5 +604,7 @@ bool marlin_2::buffer_line(const float(&cart)[MARLIN_2_XYZE], double fr_mm_s, in
   // Generate the gcode
   gcodes_ += g1_command(target);
 
+  // update the current position
+  set_current_position(target);
   return true;
 }
diff --git a/ArcWelderInverseProcessor/smoothieware.cpp b/ArcWelderInverseProcessor/smoothieware.cpp
index 43b8c3c..61cacc4 100644
--- a/ArcWelderInverseProcessor/smoothieware.cpp
+++ b/ArcWelderInverseProcessor/smoothieware.cpp
@@ -302,6 +302,8 @@ bool smoothieware::append_milestone(const float target[], double rate_mm_s)
   // Generate the gcode
   gcodes_ += g1_command(gcode_target);
 
+  // update the current position
+  set_current_position(gcode_target);
   return true;
   return true;
 }
-- 
2.43.0


From e78d104a5733f06f222ff92c0e3fd64f66082e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 20/43] fix: marlin 2 arc expansion dropped the height change
 of helical arcs

---
 ArcWelderInverseProcessor/marlin_2.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index 54af4e5..c5064d8 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -307,7 +307,7 @@ void marlin_2::plan_arc_2_0_9_1(
     // Update raw location
     raw[p_axis] = center_P + rvec[0];
     raw[q_axis] = center_Q + rvec[1];
-    raw[l_axis] = start_L, raw[l_axis] + linear_per_segment;
+    raw[l_axis] += linear_per_segment;
 
     raw[E_AXIS] += extruder_per_segment;
 
@@ -321,14 +321,12 @@ void marlin_2::plan_arc_2_0_9_1(
 
   // Ensure last segment arrives at target location.
   COPY(raw, cart);
-  raw[l_axis] = start_L;
 
   apply_motion_limits(raw);
 
 
   buffer_line(raw, scaled_fr_mm_s, 0);
 
-  raw[l_axis] = start_L;
   COPY(current_position, raw);
 }
 
@@ -527,7 +525,7 @@ void marlin_2::plan_arc_2_0_9_2(
     // Update raw location
     raw[p_axis] = center_P + rvec[0];
     raw[q_axis] = center_Q + rvec[1];
-    raw[l_axis] = start_L, raw[l_axis] + per_segment_L;
+    raw[l_axis] += per_segment_L;
     raw[E_AXIS] += extruder_per_segment;
 
     apply_motion_limits(raw);
@@ -540,14 +538,12 @@ void marlin_2::plan_arc_2_0_9_2(
 
   // Ensure last segment arrives at target location.
   COPY(raw, cart);
-  raw[l_axis] = start_L;
 
   apply_motion_limits(raw);
 
 
   buffer_line(raw, scaled_fr_mm_s, 0);
 
-  raw[l_axis] = start_L;
   COPY(current_position, raw);
 }
 // Marlin Function Defs
-- 
2.43.0


From bd816e21905c86597cb4d61141c0a55f14ae7ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 21/43] fix: repetier 1.0.5 arc length used the integer abs and
 truncated the angle

---
 ArcWelderInverseProcessor/repetier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelderInverseProcessor/repetier.cpp b/ArcWelderInverseProcessor/repetier.cpp
index f3feb61..8b5ead2 100644
--- a/ArcWelderInverseProcessor/repetier.cpp
+++ b/ArcWelderInverseProcessor/repetier.cpp
@@ -192,7 +192,7 @@ void repetier::arc_1_0_5(float* position, float* target, float* offset, float ra
   }
 
   // Determine the number of mm of total travel
-  float millimeters_of_travel = abs(angular_travel) * radius;
+  float millimeters_of_travel = utilities::absf(angular_travel) * radius;
   if (linear_travel)
   {
     // If we have any Z motion, add this to the total mm of travel.
-- 
2.43.0


From c9eba53a7d23be86f5947a712328d2c703ddb301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 22/43] fix: the number of expanded arc commands was counted
 from an uninitialised value

---
 ArcWelderInverseProcessor/arc_interpolation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelderInverseProcessor/arc_interpolation.h b/ArcWelderInverseProcessor/arc_interpolation.h
index e1eed16..aa99329 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.h
+++ b/ArcWelderInverseProcessor/arc_interpolation.h
@@ -84,7 +84,7 @@ class arc_interpolation
 			std::ofstream output_file_;
 			int lines_processed_ = 0;
 			firmware* p_current_firmware_;
-			int num_arc_commands_;
+			int num_arc_commands_ = 0;
   
 };
 
-- 
2.43.0


From 16f4fd3b2018572c379c725e9652861aef1689ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 23/43] fix: the position arrays of the marlin simulators were
 freed with delete instead of delete[]

---
 ArcWelderInverseProcessor/marlin_1.cpp | 2 +-
 ArcWelderInverseProcessor/marlin_2.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ArcWelderInverseProcessor/marlin_1.cpp b/ArcWelderInverseProcessor/marlin_1.cpp
index 3bdf86f..a295f73 100644
--- a/ArcWelderInverseProcessor/marlin_1.cpp
+++ b/ArcWelderInverseProcessor/marlin_1.cpp
@@ -42,7 +42,7 @@ marlin_1::marlin_1(firmware_arguments args) : firmware(args) {
 
 marlin_1::~marlin_1()
 {
-	delete current_position;
+	delete[] current_position;
 }
 
 void marlin_1::apply_arguments()
diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index c5064d8..7e8a129 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -41,7 +41,7 @@ marlin_2::marlin_2(firmware_arguments args) : firmware(args) {
 
 marlin_2::~marlin_2()
 {
-  delete current_position;
+  delete[] current_position;
 }
 
 void marlin_2::apply_arguments()
-- 
2.43.0


From 9cae3d68fe76aa18427421a4f57855210eb30168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 24/43] fix: marlin 2 arc_segments_per_sec took the feedrate in
 mm/min for mm/s

---
 ArcWelderInverseProcessor/marlin_2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index 7e8a129..1df0bf8 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -225,7 +225,7 @@ void marlin_2::plan_arc_2_0_9_1(
   }
   else if (args_.arc_segments_per_sec > 0)
   {
-    seg_length = utilities::maxf(scaled_fr_mm_s * utilities::reciprocalf((float)args_.arc_segments_per_sec), (float)args_.mm_per_arc_segment);
+    seg_length = utilities::maxf((scaled_fr_mm_s / 60.0f) * utilities::reciprocalf((float)args_.arc_segments_per_sec), (float)args_.mm_per_arc_segment);
   }
 
   // Divide total travel by nominal segment length
@@ -429,7 +429,7 @@ void marlin_2::plan_arc_2_0_9_2(
   // Get the nominal segment length based on settings
   float nominal_segment_mm;
   if (args_.arc_segments_per_sec > 0) {
-    nominal_segment_mm = utilities::constrainf(scaled_fr_mm_s * utilities::reciprocalf((float)args_.arc_segments_per_sec), (float)args_.min_arc_segment_mm, (float)args_.max_arc_segment_mm);
+    nominal_segment_mm = utilities::constrainf((scaled_fr_mm_s / 60.0f) * utilities::reciprocalf((float)args_.arc_segments_per_sec), (float)args_.min_arc_segment_mm, (float)args_.max_arc_segment_mm);
   }
   else {
     nominal_segment_mm = (float)args_.max_arc_segment_mm;
-- 
2.43.0


From b59f17857a04fc0c62753062d8c09cdf3a7c067b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 25/43] fix: commands written with leading zeros (G01, G02)
 were not recognised

---
 GcodeProcessorLib/gcode_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index e1eddd5..a0c2b9d 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -322,6 +322,10 @@ bool gcode_parser::try_extract_gcode_command(char ** p_p_gcode, std::string * p_
 					++p;
 				}
 			}
+			// Leading zeros are not significant, G01 is the same command as G1
+			while (p_command->length() > 2 && (*p_command)[1] == '0') {
+				p_command->erase(1, 1);
+			}
 			if (*p == '.') {
 				(*p_command).push_back(*p++);
 				found_command = false;
-- 
2.43.0


From c9142e393ceb23d9e99453ff8d99925610df7be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 26/43] fix: a lift was still reported after the nozzle had
 come back down

---
 GcodeProcessorLib/gcode_position.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 66a469b..005aed6 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -685,6 +685,11 @@ void gcode_position::update(parsed_command& command, const long file_line_number
 			}
 
 		}
+		else
+		{
+			// the nozzle is not above the last extrusion (any more), so it isn't lifted
+			p_current_pos->is_zhop = false;
+		}
 
 		
 
-- 
2.43.0


From 0b46f6b27e1c8111540ab2cf7e2e9027bd0e908e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 27/43] fix: the length of G2/G3 commands in the source was
 computed from the wrong numbers

---
 ArcWelder/arc_welder.cpp        | 6 +++---
 GcodeProcessorLib/utilities.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 7b63b26..7c20e87 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -497,14 +497,14 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
         switch ((*it).name[0])
         {
         case 'I':
-          i = (*it).double_precision;
+          i = (*it).double_value;
           break;
         case 'J':
-          j = (*it).double_precision;
+          j = (*it).double_value;
           break;
           // Note that the R form isn't fully implemented!
         case 'R':
-          r = (*it).double_precision;
+          r = (*it).double_value;
           break;
         }
       }
diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index 7e52d57..d23cc98 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -212,13 +212,13 @@ double utilities::get_cartesian_distance(double x1, double y1, double z1, double
 
 double utilities::get_arc_distance(double x1, double y1, double z1, double x2, double y2, double z2, double i, double j, double r, bool is_clockwise)
 {
-	double center_x = x1 - i;
-	double center_y = y1 - j;
+	double center_x = x1 + i;
+	double center_y = y1 + j;
 	double radius = utilities::hypot(i, j);
 	double z_dist = z2 - z1;
 	double rt_x = x2 - center_x;
 	double rt_y = y2 - center_y;
-	double angular_travel_total = utilities::atan2(i * rt_y - j * rt_x, i * rt_x + j * rt_y);
+	double angular_travel_total = utilities::atan2(j * rt_x - i * rt_y, -i * rt_x - j * rt_y);
 	if (angular_travel_total < 0) { angular_travel_total += 2.0 * PI_DOUBLE; }
 	// Adjust the angular travel if the direction is clockwise
 	if (is_clockwise) { angular_travel_total -= 2.0 * PI_DOUBLE; }
-- 
2.43.0


From 8b301e839659da53d51e3f285c16f2b40810434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 28/43] fix: report invalid console arguments instead of
 aborting

The ExitException raised by failure() was thrown from a catch block of main
and never caught, so every value rejected by the range checks ended the
program in std::terminate.
---
 ArcWelderConsole/ArcWelderConsole.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index 50e2b93..73f3218 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -345,7 +345,14 @@ int main(int argc, char* argv[])
   catch (TCLAP::ArgException& e)
   {
     // This will raise an exit exception
-    cmd.getOutput()->failure(cmd, e);
+    try
+    {
+      cmd.getOutput()->failure(cmd, e);
+    }
+    catch (TCLAP::ExitException& exit_exception)
+    {
+      return exit_exception.getExitStatus();
+    }
     return 1;
   }
   
-- 
2.43.0


From 20e2fb889fdafb9df6e90264b2e589d8b9a55bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 29/43] fix: check the range of the precision arguments before
 narrowing them

-x=259 was truncated to 3 and accepted.
---
 ArcWelderConsole/ArcWelderConsole.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index 73f3218..2c55b3f 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -264,22 +264,22 @@ int main(int argc, char* argv[])
         throw TCLAP::ArgException("You must also specify a non zero value for the " + mm_per_arc_segment_arg.toString() + " argument.", min_arc_segments_arg.toString());
     }
 
-    if (args.default_xyz_precision < 3)
+    if (default_xyz_precision_arg.getValue() < 3)
     {
         throw TCLAP::ArgException("The provided value is less than 3.", default_xyz_precision_arg.toString());
     }
 
-    if (args.default_e_precision < 3)
+    if (default_e_precision_arg.getValue() < 3)
     {
         throw TCLAP::ArgException("The provided value is less than 3.", default_e_precision_arg.toString());
     }
 
-    if (args.default_xyz_precision > 6)
+    if (default_xyz_precision_arg.getValue() > 6)
     {
         throw TCLAP::ArgException("The provided value is greater than 6.", default_xyz_precision_arg.toString());
     }
 
-    if (args.default_e_precision > 6)
+    if (default_e_precision_arg.getValue() > 6)
     {
         throw TCLAP::ArgException("The provided value is greater than 6.", default_e_precision_arg.toString());
     }
-- 
2.43.0


From c8aa6406f6f8a01f8f4eebfb99964f4009c906ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 30/43] fix: exit with an error status when the conversion
 failed

The console program reported success to its caller (scripts, slicer post
processing) although no result was written.
---
 ArcWelderConsole/ArcWelderConsole.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index 2c55b3f..8541215 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -437,7 +437,7 @@ int main(int argc, char* argv[])
   }
 
   delete p_arc_welder;
-  return 0;
+  return results.success ? 0 : 1;
 }
 
 bool on_progress_full(arc_welder_progress progress, logger* p_logger, int logger_type)
-- 
2.43.0


From 1defe6af4ec67124df6e1c3ac788effdc4714886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 31/43] fix: read the precision arguments as signed numbers

Negative values wrapped around, -x=-4294967293 was accepted as 3.
---
 ArcWelderConsole/ArcWelderConsole.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index 8541215..87299ec 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -114,13 +114,13 @@ int main(int argc, char* argv[])
   arg_description_stream.clear();
   arg_description_stream.str("");
   arg_description_stream << "The default precision of X, Y, Z, I and J output gcode parameters. The precision may be larger than this value if allow-dynamic-precision is set to true. Restrictions: Allowed values are 3, 4, 5, or 6. Default Value: " << DEFAULT_XYZ_PRECISION;
-  TCLAP::ValueArg<unsigned int> default_xyz_precision_arg("x", "default-xyz-precision", arg_description_stream.str(), false, DEFAULT_XYZ_PRECISION, "unsigned int");
+  TCLAP::ValueArg<int> default_xyz_precision_arg("x", "default-xyz-precision", arg_description_stream.str(), false, DEFAULT_XYZ_PRECISION, "unsigned int");
 
   // -e --default-e-precision
   arg_description_stream.clear();
   arg_description_stream.str("");
   arg_description_stream << "The default precision of E output gcode parameters. The precision may be larger than this value if allow-dynamic-precision is set to true. Restrictions: Allowed values are 3, 4, 5, or 6. Default Value: " << DEFAULT_E_PRECISION;
-  TCLAP::ValueArg<unsigned int> default_e_precision_arg("e", "default-e-precision", arg_description_stream.str(), false, DEFAULT_E_PRECISION, "unsigned int");
+  TCLAP::ValueArg<int> default_e_precision_arg("e", "default-e-precision", arg_description_stream.str(), false, DEFAULT_E_PRECISION, "unsigned int");
 
   // -s --mm-per-arc-segment
   arg_description_stream.clear();
-- 
2.43.0


From 79a5e99c5dcda1bf225aa1a6552a43b2654fed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 32/43] fix: report invalid ArcStraightener arguments instead
 of aborting

The ExitException raised by failure() was thrown from a catch block and never
caught, so an option which does not apply to the firmware or a missing source
file ended the program in std::terminate.  The status is passed on by main.
---
 .../ArcWelderInverseProcessor.cpp                     | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 9a82f76..f49bb31 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -56,7 +56,7 @@
 int main(int argc, char* argv[])
 {
   try {
-    run_arc_straightener(argc, argv);
+    return run_arc_straightener(argc, argv);
   }
   catch (TCLAP::ArgException *e) {
     std::cout << (*e).what() << " - " << (*e).typeDescription() << "\n";
@@ -514,7 +514,14 @@ int run_arc_straightener(int argc, char* argv[])
   catch (TCLAP::ArgException& e)
   {
     // This will raise an exit exception
-    cmd.getOutput()->failure(cmd, e);
+    try
+    {
+      cmd.getOutput()->failure(cmd, e);
+    }
+    catch (TCLAP::ExitException& exit_exception)
+    {
+      return exit_exception.getExitStatus();
+    }
     return 1;
   }
   catch (TCLAP::ExitException exc)
-- 
2.43.0


From c78854dc9587b67622c2ef819d9a938edf26aac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 33/43] fix: ArcStraightener -g=DEFAULT keeps the G90/G91
 behavior of the firmware

It was read as FALSE, which is wrong for MARLIN_2 and SMOOTHIEWARE.
---
 ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index f49bb31..dd46183 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -430,7 +430,11 @@ int run_arc_straightener(int argc, char* argv[])
       {
         throw TCLAP::ArgException("The argument does not apply to the " + firmware_type_string + " " + firmware_version_arg.getValue() + " firmware.  Only the following parameters are supported: " + available_arguments_string, g90_arg.toString());
       }
-      args.firmware_args.g90_g91_influences_extruder = g90_arg.getValue() == "TRUE";
+      // DEFAULT keeps the behavior of the firmware
+      if (g90_arg.getValue() != g90_g91_influences_extruder_default_value)
+      {
+        args.firmware_args.g90_g91_influences_extruder = g90_arg.getValue() == "TRUE";
+      }
     }
     if (n_arc_correction_arg.isSet())
     {
-- 
2.43.0


From ce89dd7c14981f0d0dd29694d563263ab19273de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 34/43] fix: ArcStraightener deleted its source file when the
 conversion failed

Converting in place removed the source although the target could not be
written completely (unreadable source, disk full, no temporary file).
Failures are reported by the exit status too.
---
 .../ArcWelderInverseProcessor.cpp             | 20 ++++++++++++++++---
 .../arc_interpolation.cpp                     | 17 +++++++++++++++-
 ArcWelderInverseProcessor/arc_interpolation.h |  6 +++++-
 3 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index dd46183..20b491b 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -589,7 +589,16 @@ int run_arc_straightener(int argc, char* argv[])
   p_logger->log(0, log_levels::INFO, log_messages.str());
 
   p_logger->log(0, log_levels::INFO, "Running interpolation...");
-  interpolator.process();
+  if (!interpolator.process())
+  {
+    p_logger->log(0, log_levels::ERROR, "Interpolation failed.");
+    if (overwrite_source_file)
+    {
+      // The target is incomplete, keep the source file.
+      std::remove(args.target_path.c_str());
+    }
+    return 1;
+  }
   p_logger->log(0, log_levels::INFO, "Interpolation Complete.");
 
   log_messages.clear();
@@ -604,10 +613,15 @@ int run_arc_straightener(int argc, char* argv[])
     p_logger->log(0, log_levels::INFO, log_messages.str());
     log_messages.clear();
     log_messages.str("");
-    std::remove(args.source_path.c_str());
+    bool replaced = std::remove(args.source_path.c_str()) == 0;
     log_messages << "Renaming temporary file at '" << args.target_path << "' to '" << args.source_path << "'.";
     p_logger->log(0, log_levels::INFO, log_messages.str());
-    std::rename(args.target_path.c_str(), args.source_path.c_str());
+    replaced = replaced && std::rename(args.target_path.c_str(), args.source_path.c_str()) == 0;
+    if (!replaced)
+    {
+      p_logger->log(0, log_levels::ERROR, "Unable to replace the source file.  The processed file was written to '" + args.target_path + "'.");
+      return 1;
+    }
   }
 
   log_messages.clear();
diff --git a/ArcWelderInverseProcessor/arc_interpolation.cpp b/ArcWelderInverseProcessor/arc_interpolation.cpp
index feb045b..6cc379e 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.cpp
+++ b/ArcWelderInverseProcessor/arc_interpolation.cpp
@@ -114,7 +114,7 @@ arc_interpolation::~arc_interpolation()
  
 }
 
-void arc_interpolation::process()
+bool arc_interpolation::process()
 {
   // Create a stringstream we can use for messaging.
   std::stringstream stream;
@@ -148,6 +148,7 @@ void arc_interpolation::process()
   output_file_.sync_with_stdio(false);
   gcode_parser parser;
   int gcodes_processed = 0;
+  bool success = false;
   if (gcode_file.is_open())
   {
     if (output_file_.is_open())
@@ -248,7 +249,20 @@ void arc_interpolation::process()
         }
 
       }
+      const bool read_failed = gcode_file.bad();
       output_file_.close();
+      if (read_failed)
+      {
+        std::cout << "Unable to read the gcode file.\n";
+      }
+      else if (output_file_.fail())
+      {
+        std::cout << "Unable to write the output file.\n";
+      }
+      else
+      {
+        success = true;
+      }
     }
     else
     {
@@ -273,6 +287,7 @@ void arc_interpolation::process()
   stream << "\tArc Segments Generated: " << p_current_firmware_->get_num_arc_segments_generated() << "\r\n";
   stream << "\tTotal Seconds         : " << total_seconds << "\r\n";
   std::cout << stream.str();
+  return success;
 }
 
 std::string arc_interpolation::get_firmware_arguments_description(std::string separator, std::string argument_prefix, std::string replacement_string, std::string replacement_value) const
diff --git a/ArcWelderInverseProcessor/arc_interpolation.h b/ArcWelderInverseProcessor/arc_interpolation.h
index aa99329..2efbf80 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.h
+++ b/ArcWelderInverseProcessor/arc_interpolation.h
@@ -69,7 +69,11 @@ class arc_interpolation
 		arc_interpolation();
 		arc_interpolation(arc_interpolation_args args);
 		virtual ~arc_interpolation();
-		void process();
+		/// <summary>
+		/// Converts the source file.
+		/// </summary>
+		/// <returns>True if the whole source was read and the whole target was written</returns>
+		bool process();
 		/// <summary>
 		/// Outputs a string description of the firmware arguments.
 		/// </summary>
-- 
2.43.0


From b258af15ff2178e250b3e5b24fa26cffcd84699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:31 +0000
Subject: [PATCH 35/43] fix: pass logger type and level to the Python logger in
 the right order

---
 PyArcWelder/py_arc_welder.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 65dabc9..7a85a7d 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -254,13 +254,13 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     if (args.default_xyz_precision < 3)
     {
       std::string message = "ParseArgs - The default XYZ precision received was less than 3, which could cause problems printing arcs.  Setting to 3.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_xyz_precision = 3;
     }
     else if (args.default_xyz_precision > 6)
     {
       std::string message = "ParseArgs - The default XYZ precision received was greater than 6, which could can cause checksum errors depending on your firmware.  Setting to 6.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_xyz_precision = 6;
     }
   }
@@ -271,20 +271,20 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_default_e_precision == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'default_e_precision parameter' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else {
     args.default_e_precision = (unsigned char)gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_e_precision);
     if (args.default_e_precision < 3)
     {
       std::string message = "ParseArgs - The default E precision received was less than 3, which could cause extrusion problems.  Setting to 3.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_e_precision = 3;
     }
     else if (args.default_e_precision > 6)
     {
       std::string message = "ParseArgs - The default E precision received was greater than 6, which could can cause checksum errors depending on your firmware.  Setting to 6.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_e_precision = 6;
     }
   }
@@ -295,7 +295,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_extrusion_rate_variance_percent == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'extrusion_rate_variance_percent' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -312,7 +312,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_path_tolerance_percent == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'path_tolerance_percent' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -329,7 +329,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_max_radius_mm == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'max_radius_mm' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -346,7 +346,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_mm_per_arc_segment == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'mm_per_arc_segment' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -363,7 +363,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_min_arc_segments == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'min_arc_segments' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -380,7 +380,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_max_gcode_length == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'max_gcode_length' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -397,7 +397,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_allow_3d_arcs == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'allow_3d_arcs' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -410,7 +410,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_allow_travel_arcs == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'allow_travel_arcs' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -424,7 +424,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_g90_g91_influences_extruder == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'g90_g91_influences_extruder' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -437,7 +437,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_log_level == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'log_level' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
-- 
2.43.0


From 05c894f53ebd9ac2aa117cbf6c0a02b8b944f362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:32 +0000
Subject: [PATCH 36/43] fix: report a required Python argument that is not a
 string instead of crashing

---
 PyArcWelder/py_arc_welder.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 7a85a7d..6e0c2e3 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -173,7 +173,14 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log_exception(GCODE_CONVERSION, message);
     return false;
   }
-  args.guid = gcode_arc_converter::PyUnicode_SafeAsString(py_guid);
+  const char* guid = gcode_arc_converter::PyUnicode_SafeAsString(py_guid);
+  if (guid == NULL)
+  {
+    std::string message = "ParseArgs - The required parameter 'guid' is not a string.";
+    p_py_logger->log_exception(GCODE_CONVERSION, message);
+    return false;
+  }
+  args.guid = guid;
 #pragma endregion guid
 #pragma region source_path
   // Extract the source file path
@@ -184,7 +191,14 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log_exception(GCODE_CONVERSION, message);
     return false;
   }
-  args.source_path = gcode_arc_converter::PyUnicode_SafeAsString(py_source_path);
+  const char* source_path = gcode_arc_converter::PyUnicode_SafeAsString(py_source_path);
+  if (source_path == NULL)
+  {
+    std::string message = "ParseArgs - The required parameter 'source_path' is not a string.";
+    p_py_logger->log_exception(GCODE_CONVERSION, message);
+    return false;
+  }
+  args.source_path = source_path;
 #pragma endregion source_path
 #pragma region target_path
   // Extract the target file path
@@ -195,7 +209,14 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log_exception(GCODE_CONVERSION, message);
     return false;
   }
-  args.target_path = gcode_arc_converter::PyUnicode_SafeAsString(py_target_path);
+  const char* target_path = gcode_arc_converter::PyUnicode_SafeAsString(py_target_path);
+  if (target_path == NULL)
+  {
+    std::string message = "ParseArgs - The required parameter 'target_path' is not a string.";
+    p_py_logger->log_exception(GCODE_CONVERSION, message);
+    return false;
+  }
+  args.target_path = target_path;
 #pragma endregion target_path
 #pragma region on_progress_received
   // on_progress_received
-- 
2.43.0


From 3ad328977d15d323cff9d96e778cdb2dcf9fed80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:32 +0000
Subject: [PATCH 37/43] fix: release the Python objects put into the progress
 and the results

---
 PyArcWelder/py_arc_welder.cpp           | 4 ++++
 PyArcWelder/py_arc_welder_extension.cpp | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 6e0c2e3..163e8be 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -112,6 +112,10 @@ PyObject* py_arc_welder::build_py_progress(const arc_welder_progress& progress,
   PyDict_SetItemString(py_progress, "segment_statistics_text", pyMessage);
   PyDict_SetItemString(py_progress, "segment_travel_statistics_text", pyTravelMessage);
   PyDict_SetItemString(py_progress, "guid", pyGuid);
+  // The dictionary holds references of its own
+  Py_DECREF(pyMessage);
+  Py_DECREF(pyTravelMessage);
+  Py_DECREF(pyGuid);
   return py_progress;
 }
 
diff --git a/PyArcWelder/py_arc_welder_extension.cpp b/PyArcWelder/py_arc_welder_extension.cpp
index 4ad2518..5d9b0d0 100644
--- a/PyArcWelder/py_arc_welder_extension.cpp
+++ b/PyArcWelder/py_arc_welder_extension.cpp
@@ -210,7 +210,10 @@ extern "C"
 		PyObject* p_progress = py_arc_welder::build_py_progress(results.progress, args.guid, true);
 		
 		if (p_progress == NULL)
+		{
 			p_progress = Py_None;
+			Py_INCREF(p_progress);
+		}
 
 		PyObject* p_results = Py_BuildValue(
 			"{s:i,s:i,s:s,s:O}",
@@ -223,6 +226,8 @@ extern "C"
 			"progress",
 			p_progress
 		);
+		// The results hold a reference of their own
+		Py_DECREF(p_progress);
 		return p_results;
 	}
 }
-- 
2.43.0


From 2b0bf91f27214d9c216983b1bc4949026fe43ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:32 +0000
Subject: [PATCH 38/43] fix: check the precisions received from Python before
 narrowing them

---
 PyArcWelder/py_arc_welder.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 163e8be..869e378 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -275,19 +275,23 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else {
-    args.default_xyz_precision = (unsigned char)gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_xyz_precision);
-    if (args.default_xyz_precision < 3)
+    const double default_xyz_precision = gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_xyz_precision);
+    if (default_xyz_precision < 3)
     {
       std::string message = "ParseArgs - The default XYZ precision received was less than 3, which could cause problems printing arcs.  Setting to 3.";
       p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_xyz_precision = 3;
     }
-    else if (args.default_xyz_precision > 6)
+    else if (default_xyz_precision > 6)
     {
       std::string message = "ParseArgs - The default XYZ precision received was greater than 6, which could can cause checksum errors depending on your firmware.  Setting to 6.";
       p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_xyz_precision = 6;
     }
+    else
+    {
+      args.default_xyz_precision = (unsigned char)default_xyz_precision;
+    }
   }
 #pragma endregion default_xyz_precision
 #pragma region default_e_precision
@@ -299,19 +303,23 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else {
-    args.default_e_precision = (unsigned char)gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_e_precision);
-    if (args.default_e_precision < 3)
+    const double default_e_precision = gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_e_precision);
+    if (default_e_precision < 3)
     {
       std::string message = "ParseArgs - The default E precision received was less than 3, which could cause extrusion problems.  Setting to 3.";
       p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_e_precision = 3;
     }
-    else if (args.default_e_precision > 6)
+    else if (default_e_precision > 6)
     {
       std::string message = "ParseArgs - The default E precision received was greater than 6, which could can cause checksum errors depending on your firmware.  Setting to 6.";
       p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_e_precision = 6;
     }
+    else
+    {
+      args.default_e_precision = (unsigned char)default_e_precision;
+    }
   }
 #pragma endregion default_e_precision
 #pragma region extrusion_rate_variance_percent
-- 
2.43.0


From 46d9b5356c8a43780ad244f73929560c64c8e4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:32 +0000
Subject: [PATCH 39/43] fix: do not leave an exception of the Python progress
 callback pending

---
 PyArcWelder/py_arc_welder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 869e378..d5f260c 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -142,6 +142,8 @@ bool py_arc_welder::on_progress_(const arc_welder_progress& progress)
   if (pContinueProcessing == NULL)
   {
     // no return value was supply, assume true, but without decrefing pContinueProcessing
+    // An exception must not stay pending, else further calls to Python will fail.
+    PyErr_Print();
     continue_processing = true;
   }
   else
-- 
2.43.0


From 24550610dce704d3a28af4d52afc979cf095b6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:32 +0000
Subject: [PATCH 40/43] fix: report file positions and sizes above 2 GB
 correctly to Python

---
 PyArcWelder/py_arc_welder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index d5f260c..9d1deb9 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -48,7 +48,7 @@ PyObject* py_arc_welder::build_py_progress(const arc_welder_progress& progress,
   if (pyTravelMessage == NULL)
     return NULL;
   double total_travel_count_reduction_percent = progress.travel_statistics.get_total_count_reduction_percent();
-  PyObject* py_progress = Py_BuildValue("{s:d,s:d,s:d,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:f,s:f,s:f,s:f,s:i,s:i,s:f,s:f,s:f,s:i,s:i,s:f}",
+  PyObject* py_progress = Py_BuildValue("{s:d,s:d,s:d,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:l,s:l,s:l,s:f,s:f,s:f,s:f,s:i,s:i,s:f,s:f,s:f,s:i,s:i,s:f}",
     "percent_complete",
     progress.percent_complete,												//1
     "seconds_elapsed",
-- 
2.43.0


From 8971b98eb711551e2adc1898d34825f58ed55fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:06 +0000
Subject: [PATCH 41/43] fix: raise the reported error even if the Python logger
 fails

---
 PyArcWelder/py_logger.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/PyArcWelder/py_logger.cpp b/PyArcWelder/py_logger.cpp
index da7b935..3dbbbe2 100644
--- a/PyArcWelder/py_logger.cpp
+++ b/PyArcWelder/py_logger.cpp
@@ -237,16 +237,13 @@ void py_logger::log(const int logger_type, const int log_level, const std::strin
 			PyErr_Clear();
 		}
 	}
-	else
+	// Set the exception if we are doing exception logging, even if it could not be logged.
+	if (is_exception)
 	{
-		// Set the exception if we are doing exception logging.
-		if (is_exception)
-		{
-			if (error_occurred)
-				PyErr_Restore(error_type, error_value, error_traceback);
-			else
-				PyErr_SetString(PyExc_Exception, message.c_str());
-		}
+		if (error_occurred)
+			PyErr_Restore(error_type, error_value, error_traceback);
+		else
+			PyErr_SetString(PyExc_Exception, message.c_str());
 	}
 	Py_XDECREF(ret_val);
 }
-- 
2.43.0


From 47b369b8cb202120c0c9b5c6e915b984dfda2aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:00 +0000
Subject: [PATCH 42/43] fix: report the source size as position when the end of
 the file has been read

---
 ArcWelder/arc_welder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 7c20e87..d0d374a 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -329,7 +329,9 @@ arc_welder_results arc_welder::process()
         {
           p_logger_->log(logger_type_, log_levels::VERBOSE, "Sending progress update.");
         }
-        continue_processing = on_progress_(get_progress_(static_cast<long>(gcodeFile.tellg()), static_cast<double>(start_clock)));
+        // The position is not available (-1) once the end of the file has been reached
+        const long source_file_position = gcodeFile.eof() ? file_size_ : static_cast<long>(gcodeFile.tellg());
+        continue_processing = on_progress_(get_progress_(source_file_position, static_cast<double>(start_clock)));
         next_update_time = get_next_update_time();
       }
     }
-- 
2.43.0


From 7a1956e4f98f3f4d492b679df952a83983477bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:00 +0000
Subject: [PATCH 43/43] fix: an empty source file is 100% complete instead of
 NaN

---
 ArcWelder/arc_welder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index d0d374a..5f38965 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -432,7 +432,8 @@ arc_welder_progress arc_welder::get_progress_(long source_file_position, double
   progress.target_file_size = static_cast<long>(output_file_.tellp());
   progress.source_file_size = file_size_;
   long bytesRemaining = file_size_ - static_cast<long>(source_file_position);
-  progress.percent_complete = static_cast<double>(source_file_position) / static_cast<double>(file_size_) * 100.0;
+  // An empty file is complete
+  progress.percent_complete = file_size_ > 0 ? static_cast<double>(source_file_position) / static_cast<double>(file_size_) * 100.0 : 100.0;
   progress.seconds_elapsed = get_time_elapsed(start_clock, clock());
   double bytesPerSecond = static_cast<double>(source_file_position) / progress.seconds_elapsed;
   progress.seconds_remaining = bytesRemaining / bytesPerSecond;
-- 
2.43.0

