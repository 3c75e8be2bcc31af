From 86405ac720cf1e224c9dd50a9acdfab0fce9252f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 001/107] fix: read-only marks and locations set through a
 config block view reach the parent

---
 vital/config/config_block.cxx | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/vital/config/config_block.cxx b/vital/config/config_block.cxx
index e888069..d667b09 100644
--- a/vital/config/config_block.cxx
+++ b/vital/config/config_block.cxx
@@ -227,6 +227,11 @@ bool
 config_block
 ::is_read_only( config_block_key_t const& key ) const
 {
+  if ( m_parent )
+  {
+    return m_parent->is_read_only( m_name + block_sep + key );
+  }
+
   return 0 != m_ro_list.count( key );
 }
 
@@ -237,6 +242,12 @@ void
 config_block
 ::mark_read_only( config_block_key_t const& key )
 {
+  if ( m_parent )
+  {
+    m_parent->mark_read_only( m_name + block_sep + key );
+    return;
+  }
+
   m_ro_list.insert( key );
 }
 
@@ -400,6 +411,12 @@ void
 config_block
 ::set_location( config_block_key_t const& key, std::shared_ptr< std::string > file, int line )
 {
+  if ( m_parent )
+  {
+    m_parent->set_location( m_name + block_sep + key, file, line );
+    return;
+  }
+
   m_def_store[key] = source_location( file, line );
 }
 
@@ -411,6 +428,11 @@ config_block
                 std::string& f,
                 int& l) const
 {
+  if ( m_parent )
+  {
+    return m_parent->get_location( m_name + block_sep + key, f, l );
+  }
+
   location_t::const_iterator i = m_def_store.find( key );
   if ( i != m_def_store.end() )
   {
-- 
2.43.0


From c283fd68e643d332f8ee6e2b683d9d5a76c13adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 002/107] fix: global config entries listed by a block view can
 be looked up through it

---
 vital/config/config_block.cxx | 44 ++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/vital/config/config_block.cxx b/vital/config/config_block.cxx
index d667b09..8c3d8ce 100644
--- a/vital/config/config_block.cxx
+++ b/vital/config/config_block.cxx
@@ -97,6 +97,10 @@ static bool does_not_begin_with( config_block_key_t const&  key,
 static config_block_key_t strip_block_name( config_block_key_t const& subblock,
                                             config_block_key_t const& key );
 
+/// private helper method to get the key in the parent block for a view's key
+static config_block_key_t parent_key( config_block_key_t const& name,
+                                      config_block_key_t const& key );
+
 // Create an empty configuration.
 config_block_sptr
 config_block
@@ -167,7 +171,7 @@ config_block
 {
   if ( m_parent )
   {
-    return m_parent->get_description( m_name + block_sep + key );
+    return m_parent->get_description( parent_key( m_name, key ) );
   }
 
   store_t::const_iterator i = m_descr_store.find( key );
@@ -188,7 +192,7 @@ config_block
 {
   if ( m_parent )
   {
-    m_parent->unset_value( m_name + block_sep + key );
+    m_parent->unset_value( parent_key( m_name, key ) );
   }
   else
   {
@@ -229,7 +233,7 @@ config_block
 {
   if ( m_parent )
   {
-    return m_parent->is_read_only( m_name + block_sep + key );
+    return m_parent->is_read_only( parent_key( m_name, key ) );
   }
 
   return 0 != m_ro_list.count( key );
@@ -244,7 +248,7 @@ config_block
 {
   if ( m_parent )
   {
-    m_parent->mark_read_only( m_name + block_sep + key );
+    m_parent->mark_read_only( parent_key( m_name, key ) );
     return;
   }
 
@@ -313,7 +317,7 @@ config_block
 {
   if ( m_parent )
   {
-    return m_parent->has_value( m_name + block_sep + key );
+    return m_parent->has_value( parent_key( m_name, key ) );
   }
 
   return ( 0 != m_store.count( key ) );
@@ -358,7 +362,7 @@ config_block
 {
   if ( m_parent )
   {
-    return m_parent->i_get_value( m_name + block_sep + key );
+    return m_parent->i_get_value( parent_key( m_name, key ) );
   }
 
   store_t::const_iterator i = m_store.find( key );
@@ -382,7 +386,7 @@ config_block
 {
   if ( m_parent )
   {
-    m_parent->set_value( m_name + block_sep + key, value, descr );
+    m_parent->set_value( parent_key( m_name, key ), value, descr );
   }
   else
   {
@@ -413,7 +417,7 @@ config_block
 {
   if ( m_parent )
   {
-    m_parent->set_location( m_name + block_sep + key, file, line );
+    m_parent->set_location( parent_key( m_name, key ), file, line );
     return;
   }
 
@@ -430,7 +434,7 @@ config_block
 {
   if ( m_parent )
   {
-    return m_parent->get_location( m_name + block_sep + key, f, l );
+    return m_parent->get_location( parent_key( m_name, key ), f, l );
   }
 
   location_t::const_iterator i = m_def_store.find( key );
@@ -540,6 +544,28 @@ strip_block_name( config_block_key_t const& subblock, config_block_key_t const&
 }
 
 
+// ------------------------------------------------------------------
+// private helper method to get the key in the parent block for a view's key
+/**
+ * Global entries are listed unchanged by every view, so they are looked up
+ * unchanged as well.
+ *
+ * \param name  Name of the view.
+ * \param key   Key within the view.
+ * \returns The key to use in the parent block.
+ */
+config_block_key_t
+parent_key( config_block_key_t const& name, config_block_key_t const& key )
+{
+  if ( starts_with( key, config_block::global_value + config_block::block_sep ) )
+  {
+    return key;
+  }
+
+  return name + config_block::block_sep + key;
+}
+
+
 // ------------------------------------------------------------------
 /// Format config block in a printable stream
 void
-- 
2.43.0


From 9d9b7412a28dae34a3e2178ef7c4c2b57c0acacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 003/107] fix: reading a malformed timestamp from a config
 raises the cast error

---
 vital/types/timestamp_config.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vital/types/timestamp_config.h b/vital/types/timestamp_config.h
index f2e04ad..e80242b 100644
--- a/vital/types/timestamp_config.h
+++ b/vital/types/timestamp_config.h
@@ -68,6 +68,10 @@ config_block_get_value_cast( config_block_value_t const& value )
 
   timestamp::frame_t f;
   str >> f;
+  if ( str.fail() )
+  {
+    throw bad_config_block_cast( "failed to convert from string representation \"" + value + "\" to timestamp" );
+  }
   obj.set_frame( f );
 
   return obj;
-- 
2.43.0


From b76bfd37a37cf4d16f51f3fb06ee19d9ef1b6751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 004/107] fix: floating point values stored in a config block
 read back unchanged

---
 vital/config/config_block.h | 53 +++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/vital/config/config_block.h b/vital/config/config_block.h
index 9a573b3..7315ca3 100644
--- a/vital/config/config_block.h
+++ b/vital/config/config_block.h
@@ -43,6 +43,7 @@
 #include "config_block_exception.h"
 
 #include <cstddef>
+#include <limits>
 #include <map>
 #include <set>
 #include <string>
@@ -676,6 +677,58 @@ config_block_set_value_cast( T const& value )
 }
 
 
+// ------------------------------------------------------------------
+/// Cast handling for setting floating point values
+/**
+ * The shortest representation (of at least the default precision) that
+ * converts back to the same value is used.
+ *
+ * \param value   Value to be converted to string representation.
+ * \tparam T Floating point type to be converted.
+ *
+ * \return String representation of the input value.
+ */
+template < typename T >
+inline
+config_block_value_t
+config_block_set_value_cast_float( T const& value )
+{
+  std::string repr;
+
+  for ( int digits = 6; digits <= std::numeric_limits< T >::max_digits10; ++digits )
+  {
+    std::stringstream val_str;
+    val_str.precision( digits );
+    val_str << value;
+    repr = val_str.str();
+
+    T result;
+    if ( val_str >> result && result == value )
+    {
+      break;
+    }
+  }
+
+  return repr;
+}
+
+template < >
+inline
+config_block_value_t
+config_block_set_value_cast( float const& value )
+{
+  return config_block_set_value_cast_float( value );
+}
+
+template < >
+inline
+config_block_value_t
+config_block_set_value_cast( double const& value )
+{
+  return config_block_set_value_cast_float( value );
+}
+
+
 // ------------------------------------------------------------------
 // Set a value within the configuration.
 template < typename T >
-- 
2.43.0


From d60e3fd5841f668732417e26998e92aa013ea5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 005/107] fix: config file keys and block names of one or two
 characters are accepted

---
 vital/config/config_parser.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index 85fc5a5..f9eb5b2 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -537,7 +537,7 @@ public:
   {
     // Words are LHS tokens, which start with a letter, and can not end with a ':'
     // A *word* can contain these symbols "- _ : . /"
-    static kwiversys::RegularExpression re_word( "^[a-zA-Z][-a-zA-Z0-9.:/_]+[-a-zA-Z0-9./_]" );
+    static kwiversys::RegularExpression re_word( "^[a-zA-Z]([-a-zA-Z0-9.:/_]*[-a-zA-Z0-9./_])?" );
     static kwiversys::RegularExpression re_flag( "^\\[[a-zA-Z,]+\\]" );
 
     // Test for end of line while processing
-- 
2.43.0


From 8e0ea9de09b2fbf1d4a7f5659b05cca98a0563c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 006/107] fix: a config line starting with an operator is a
 syntax error even if a keyword follows

---
 vital/config/config_parser.cxx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index f9eb5b2..ad804e3 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -228,6 +228,18 @@ public:
         return;
       } // end EOF
 
+      // Every statement starts with a keyword or key. An operator or flag is
+      // an error here, whatever text follows it.
+      if ( token.type != token_t::TK_WORD )
+      {
+        LOG_ERROR( m_logger, "Invalid syntax in line \"" << m_last_line <<
+                   "\" at " << file_path << ":" << m_line_number );
+        m_parse_error = true;
+
+        flush_line(); // force starting a new line
+        continue;
+      }
+
       // ------------------------------------------------------------------
       if ( token.value == "include" )
       {
-- 
2.43.0


From 74812a6d1fb4f3e21fcf6507636bfa8adc5e56f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 007/107] fix: a block directive without a name is a syntax
 error and does not swallow the next line

---
 vital/config/config_parser.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index ad804e3..8f77904 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -298,6 +298,13 @@ public:
         /*
          * Handle "block" <block-name>
          */
+        if ( m_token_line.empty() ) // name must be on the same line
+        {
+          LOG_ERROR( m_logger, "Missing block name at " << file_path << ":" << m_line_number );
+          m_parse_error = true;
+          continue;
+        }
+
         get_token( in_stream, token ); // get block name
         if ( token.type != token_t::TK_WORD )
         {
-- 
2.43.0


From 938dd736d0334f5722b0458fd8a6173e5ca8c09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 008/107] fix: config includes are not looked up in the
 executable search path

---
 vital/config/config_parser.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index 8f77904..6a61e56 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -662,7 +662,7 @@ public:
 
     // The file is on a relative path.
     // See if file can be found in the search path.
-    std::string res_file = kwiversys::SystemTools::FindFile( file_name, this->m_search_path, false );
+    std::string res_file = kwiversys::SystemTools::FindFile( file_name, this->m_search_path, true );
     if ( "" != res_file )
     {
       return res_file;
@@ -689,7 +689,7 @@ public:
       }
     } // end for
 
-    return kwiversys::SystemTools::FindFile( file_name, include_paths, false );
+    return kwiversys::SystemTools::FindFile( file_name, include_paths, true );
   }
 
 
-- 
2.43.0


From 3480efec920c4effa4ed82f3f37aa6f1be07afbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 009/107] fix: macros can refer to names containing dashes and
 slashes

---
 vital/config/token_expander.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/config/token_expander.cxx b/vital/config/token_expander.cxx
index 6fd60ce..a5f98c9 100644
--- a/vital/config/token_expander.cxx
+++ b/vital/config/token_expander.cxx
@@ -86,7 +86,7 @@ token_expander::
 expand_token( std::string const& initial_string )
 {
   std::string new_value;
-  static kwiversys::RegularExpression exp( "\\$([a-zA-Z][a-zA-Z0-9_]*)\\{([a-zA-Z0-9._:]+)?\\}" );
+  static kwiversys::RegularExpression exp( "\\$([a-zA-Z][a-zA-Z0-9_]*)\\{([-a-zA-Z0-9._:/]+)?\\}" );
 
   std::string::const_iterator start, end;
   start = initial_string.begin();
-- 
2.43.0


From d88ecb7564b855806cd9bfaf4f01728fb551ebfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 010/107] fix: a config file including itself is a parse error
 instead of endless recursion

---
 vital/config/config_parser.cxx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index 6a61e56..9dfa3ed 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -285,6 +285,21 @@ public:
           throw config_file_not_found_exception( resolv_filename, sstr.str() );
         }
 
+        // A file that is still being processed can not be included again, that
+        // would never end.
+        const std::string real_filename = ST::GetRealPath( resolv_filename );
+        for ( auto const& active_file : m_include_stack )
+        {
+          if ( ST::GetRealPath( active_file ) == real_filename )
+          {
+            std::ostringstream sstr;
+            sstr << "recursive include of file \"" << resolv_filename << "\" at "
+                 << file_path << ":" << current_line;
+
+            throw config_file_not_parsed_exception( file_path, sstr.str() );
+          }
+        }
+
         process_file( resolv_filename ); // process included file
 
         m_line_number = current_line; // restore line number
-- 
2.43.0


From 7206f6fc2e763f35866082a5db478b036ef2c07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 011/107] fix: writers report files that cannot be opened or
 completely written

---
 vital/config/config_block_io.cxx | 10 ++++++++++
 vital/io/camera_io.cxx           |  9 +++++++++
 vital/io/landmark_map_io.cxx     |  9 +++++++++
 vital/io/track_set_io.cxx        |  9 +++++++++
 4 files changed, 37 insertions(+)

diff --git a/vital/config/config_block_io.cxx b/vital/config/config_block_io.cxx
index ba47e56..e90095b 100644
--- a/vital/config/config_block_io.cxx
+++ b/vital/config/config_block_io.cxx
@@ -394,9 +394,19 @@ write_config_file( config_block_sptr const& config,
 
   // open output file and write each key/value to a line.
   std::ofstream ofile( file_path.c_str() );
+  if ( ! ofile )
+  {
+    throw config_file_write_exception( file_path,
+          "Could not open file for writing." );
+  }
 
   write_config( config, ofile );
   ofile.close();
+  if ( ! ofile )
+  {
+    throw config_file_write_exception( file_path,
+          "Could not write the complete file." );
+  }
 }
 
 
diff --git a/vital/io/camera_io.cxx b/vital/io/camera_io.cxx
index bfbb322..799e3d8 100644
--- a/vital/io/camera_io.cxx
+++ b/vital/io/camera_io.cxx
@@ -117,8 +117,17 @@ write_krtd_file( camera const&  cam,
 
   // open output file and write the ins_data
   std::ofstream ofile( file_path.c_str() );
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not open file for writing." );
+  }
+
   ofile << cam;
   ofile.close();
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not write the complete file." );
+  }
 }
 
 
diff --git a/vital/io/landmark_map_io.cxx b/vital/io/landmark_map_io.cxx
index 4f8501e..dba55d6 100644
--- a/vital/io/landmark_map_io.cxx
+++ b/vital/io/landmark_map_io.cxx
@@ -85,6 +85,11 @@ write_ply_file( landmark_map_sptr const&  landmarks,
 
   // open output file and write the tracks
   std::ofstream ofile( file_path.c_str() );
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not open file for writing." );
+  }
+
   // write the PLY header
   ofile << "ply\n"
            "format ascii 1.0\n"
@@ -119,6 +124,10 @@ write_ply_file( landmark_map_sptr const&  landmarks,
           << " " << p.first << " " << p.second->observations() << "\n";
   }
   ofile.close();
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not write the complete file." );
+  }
 } // write_ply_file
 
 
diff --git a/vital/io/track_set_io.cxx b/vital/io/track_set_io.cxx
index 672bbc9..47f9dd8 100644
--- a/vital/io/track_set_io.cxx
+++ b/vital/io/track_set_io.cxx
@@ -141,6 +141,11 @@ write_track_file( track_set_sptr const& tracks,
 
   // open output file and write the tracks
   std::ofstream ofile( file_path.c_str() );
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not open file for writing." );
+  }
+
   std::vector< vital::track_sptr > trks = tracks->tracks();
   VITAL_FOREACH( vital::track_sptr t, trks )
   {
@@ -150,6 +155,10 @@ write_track_file( track_set_sptr const& tracks,
     }
   }
   ofile.close();
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not write the complete file." );
+  }
 } // write_track_file
 
 } } // end namespace
-- 
2.43.0


From f71d7b0689a3ac37ea81cb69dcbb18384ad8402f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 012/107] fix: distortion coefficients are read back from
 camera files

---
 vital/io/eigen_io.h | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/vital/io/eigen_io.h b/vital/io/eigen_io.h
index b90296c..9d4e928 100644
--- a/vital/io/eigen_io.h
+++ b/vital/io/eigen_io.h
@@ -39,6 +39,9 @@
 
 #include <iostream>
 #include <cstring>
+#include <sstream>
+#include <string>
+#include <vector>
 
 #include <Eigen/Core>
 
@@ -75,6 +78,45 @@ operator>>( std::istream& s, Matrix< T, M, N >& m )
   return s;
 }
 
+/// input stream operator for an Eigen vector of variable length
+/**
+ * Reads all the values on the next line that is not blank. The vector is
+ * empty if there is no such line.
+ *
+ * \throws vital::invalid_data
+ *    Throws an invalid data exception when the line contains anything that is
+ *    not a number.
+ *
+ * \param s an input stream
+ * \param v a vector to stream into
+ */
+template < typename T >
+std::istream&
+operator>>( std::istream& s, Matrix< T, Dynamic, 1 >& v )
+{
+  std::vector< T > values;
+  std::string line;
+  while ( values.empty() && s.good() &&
+          s.peek() != std::istream::traits_type::eof() )
+  {
+    std::getline( s, line );
+    std::istringstream line_stream( line );
+    for ( T value; line_stream >> value; )
+    {
+      values.push_back( value );
+    }
+
+    if ( ! line_stream.eof() )
+    {
+      throw kwiver::vital::invalid_data( "Encountered a non-numeric value while "
+                                  "parsing an Eigen vector" );
+    }
+  }
+
+  v = Map< const Matrix< T, Dynamic, 1 > >( values.data(), values.size() );
+  return s;
+}
+
 } // end namespace Eigen
 
 #endif // VITAL_EIGEN_IO_H_
-- 
2.43.0


From 63ae22304cf074c1e6b543a8804cb2938f5b0c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 013/107] fix: malformed and blank lines of a track file do not
 become track states

---
 vital/io/track_set_io.cxx | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vital/io/track_set_io.cxx b/vital/io/track_set_io.cxx
index 47f9dd8..e57c519 100644
--- a/vital/io/track_set_io.cxx
+++ b/vital/io/track_set_io.cxx
@@ -79,11 +79,21 @@ read_track_file( path_t const& file_path )
   std::map< track_id_t, track_sptr > track_map;
   for ( std::string line; std::getline( input_stream, line ); )
   {
+    // ignore blank lines
+    if ( line.find_first_not_of( " \t\r" ) == std::string::npos )
+    {
+      continue;
+    }
+
     track_id_t tid;
     frame_id_t fid;
     feature_d feat;
     std::stringstream ss( line );
-    ss >> tid >> fid >> feat;
+    if ( ! ( ss >> tid >> fid >> feat ) )
+    {
+      throw file_not_read_exception( file_path,
+            "Malformed track state: \"" + line + "\"" );
+    }
 
     track_sptr t;
     std::map< track_id_t, track_sptr >::const_iterator it = track_map.find( tid );
-- 
2.43.0


From 49278deee27a2fb00fca4a4a781fb84751d75976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 014/107] fix: writing a track file skips states that have no
 feature

---
 vital/io/track_set_io.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vital/io/track_set_io.cxx b/vital/io/track_set_io.cxx
index e57c519..e04d2ed 100644
--- a/vital/io/track_set_io.cxx
+++ b/vital/io/track_set_io.cxx
@@ -161,6 +161,11 @@ write_track_file( track_set_sptr const& tracks,
   {
     VITAL_FOREACH( vital::track::track_state const& s, *t )
     {
+      // a state without a feature has no representation in the file
+      if ( ! s.feat )
+      {
+        continue;
+      }
       ofile << t->id() << " " << s.frame_id << " " << *s.feat << "\n";
     }
   }
-- 
2.43.0


From 63531a36a4a0376b7944fe8f5274fa10a9ce1499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 015/107] fix: reading a PLY file stops after the declared
 number of vertices

---
 vital/io/landmark_map_io.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vital/io/landmark_map_io.cxx b/vital/io/landmark_map_io.cxx
index dba55d6..0ba8d78 100644
--- a/vital/io/landmark_map_io.cxx
+++ b/vital/io/landmark_map_io.cxx
@@ -256,6 +256,12 @@ read_ply_file( path_t const& file_path )
       continue;
     }
 
+    // stop when all the points have been read
+    if ( vert_count >= num_verts )
+    {
+      break;
+    }
+
     // TODO throw exceptions if tokens.size() != vert_props.size()
     // or if the values do not parse as expected
     double x=0, y=0, z=0;
@@ -316,12 +322,6 @@ read_ply_file( path_t const& file_path )
     lm->set_color( color );
     lm->set_observations( observations );
     landmarks[id] = lm;
-
-    // exit if we have read the expected number of points
-    if ( vert_count > num_verts )
-    {
-      break;
-    }
   }
 
   ifile.close();
-- 
2.43.0


From f7f1fca02f356ea23cda0f6072808e60917ba149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 016/107] fix: files that are not valid PLY landmark files are
 refused

---
 vital/io/landmark_map_io.cxx | 44 ++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/vital/io/landmark_map_io.cxx b/vital/io/landmark_map_io.cxx
index 0ba8d78..c8fcd4c 100644
--- a/vital/io/landmark_map_io.cxx
+++ b/vital/io/landmark_map_io.cxx
@@ -165,6 +165,11 @@ read_ply_file( path_t const& file_path )
   {
     throw file_not_found_exception( file_path, "Cannot find file." );
   }
+  else if ( kwiversys::SystemTools::FileIsDirectory( file_path ) )
+  {
+    throw file_not_found_exception( file_path,
+          "Path given doesn't point to a regular file!" );
+  }
 
   landmark_map::map_landmark_t landmarks;
 
@@ -205,6 +210,13 @@ read_ply_file( path_t const& file_path )
   std::vector<vertex_property_t> vert_props;
   std::string line;
 
+  // the first line identifies the file type
+  if ( ! std::getline( ifile, line ) ||
+       get_tokens( line ) != std::vector<std::string>( 1, "ply" ) )
+  {
+    throw file_not_read_exception( file_path, "Not a PLY file." );
+  }
+
   unsigned int num_verts = 0, vert_count = 0;
   while ( std::getline( ifile, line ) )
   {
@@ -223,12 +235,21 @@ read_ply_file( path_t const& file_path )
         continue;
       }
 
+      if ( tokens[0] == "format" &&
+           ( tokens.size() < 2 || tokens[1] != "ascii" ) )
+      {
+        throw file_not_read_exception( file_path, "Not an ASCII PLY file." );
+      }
+
       if ( tokens.size() == 3 &&
            tokens[0] == "element" &&
            tokens[1] == "vertex" )
       {
         std::istringstream iss(tokens[2]);
-        iss >> num_verts;
+        if ( ! ( iss >> num_verts ) )
+        {
+          throw file_not_read_exception( file_path, "Invalid number of vertices." );
+        }
         parsing_vertex_props = true;
       }
       else if ( tokens[0] == "element" )
@@ -262,15 +283,19 @@ read_ply_file( path_t const& file_path )
       break;
     }
 
-    // TODO throw exceptions if tokens.size() != vert_props.size()
-    // or if the values do not parse as expected
+    if ( tokens.size() != vert_props.size() )
+    {
+      throw file_not_read_exception( file_path,
+            "Wrong number of vertex properties in line: \"" + line + "\"" );
+    }
+
     double x=0, y=0, z=0;
     double nx=0, ny=0, nz=0;
     rgb_color color;
     int cvalue;
     landmark_id_t id = static_cast<landmark_id_t>(vert_count++);
     unsigned observations = 0;
-    for( unsigned int i=0; i<tokens.size() && i < vert_props.size(); ++i )
+    for( unsigned int i=0; i < vert_props.size(); ++i )
     {
       std::istringstream iss(tokens[i]);
       switch( vert_props[i] )
@@ -314,6 +339,12 @@ read_ply_file( path_t const& file_path )
         default:
           break;
       }
+
+      if ( ! iss )
+      {
+        throw file_not_read_exception( file_path,
+              "Invalid vertex property in line: \"" + line + "\"" );
+      }
     }
 
     std::shared_ptr<landmark_d> lm =
@@ -326,6 +357,11 @@ read_ply_file( path_t const& file_path )
 
   ifile.close();
 
+  if ( ! parsed_header || vert_count < num_verts )
+  {
+    throw file_not_read_exception( file_path, "Unexpected end of file." );
+  }
+
   return landmark_map_sptr( new simple_landmark_map( landmarks ) );
 } // read_ply_file
 
-- 
2.43.0


From ac022dcca0a7d808d0004a508d8b9f50a3bea7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 017/107] fix: first frame of a track set is the smallest frame
 of its tracks

---
 vital/types/track_set.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vital/types/track_set.cxx b/vital/types/track_set.cxx
index 2c84c6f..deda0d0 100644
--- a/vital/types/track_set.cxx
+++ b/vital/types/track_set.cxx
@@ -120,13 +120,16 @@ track_set
 ::first_frame() const
 {
   frame_id_t first_frame = 0;
+  bool found = false;
   const std::vector<track_sptr> all_tracks = this->tracks();
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->first_frame() < first_frame )
+    // a track without states is not on any frame
+    if( ! t->empty() && ( ! found || t->first_frame() < first_frame ) )
     {
       first_frame = t->first_frame();
+      found = true;
     }
   }
 
-- 
2.43.0


From 42a5ecc4ca212ca350e8cdcabe1be52a5321175b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 018/107] fix: tracks without states are not new, terminated or
 on the last frame of a track set

---
 vital/types/track_set.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vital/types/track_set.cxx b/vital/types/track_set.cxx
index deda0d0..81a2eed 100644
--- a/vital/types/track_set.cxx
+++ b/vital/types/track_set.cxx
@@ -208,7 +208,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->first_frame() == frame_number )
+    if( ! t->empty() && t->first_frame() == frame_number )
     {
       new_tracks.push_back(t);
     }
@@ -229,7 +229,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->last_frame() == frame_number )
+    if( ! t->empty() && t->last_frame() == frame_number )
     {
       terminated_tracks.push_back(t);
     }
@@ -278,7 +278,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->last_frame() == last_frame )
+    if( ! t->empty() && t->last_frame() == last_frame )
     {
       last_features.push_back((t->end()-1)->feat);
     }
@@ -299,7 +299,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->last_frame() == last_frame )
+    if( ! t->empty() && t->last_frame() == last_frame )
     {
       last_descriptors.push_back((t->end()-1)->desc);
     }
-- 
2.43.0


From b5b74cfa6e4cb785b23bdfbc30e464eb170a1f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:08 +0000
Subject: [PATCH 019/107] fix: a distortion line ending in an incomplete number
 is refused

---
 vital/io/eigen_io.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vital/io/eigen_io.h b/vital/io/eigen_io.h
index 9d4e928..788ab6a 100644
--- a/vital/io/eigen_io.h
+++ b/vital/io/eigen_io.h
@@ -101,16 +101,16 @@ operator>>( std::istream& s, Matrix< T, Dynamic, 1 >& v )
   {
     std::getline( s, line );
     std::istringstream line_stream( line );
-    for ( T value; line_stream >> value; )
+    while ( line_stream >> std::ws && ! line_stream.eof() )
     {
+      T value;
+      if ( ! ( line_stream >> value ) )
+      {
+        throw kwiver::vital::invalid_data( "Encountered a non-numeric value while "
+                                    "parsing an Eigen vector" );
+      }
       values.push_back( value );
     }
-
-    if ( ! line_stream.eof() )
-    {
-      throw kwiver::vital::invalid_data( "Encountered a non-numeric value while "
-                                  "parsing an Eigen vector" );
-    }
   }
 
   v = Map< const Matrix< T, Dynamic, 1 > >( values.data(), values.size() );
-- 
2.43.0


From b531665edae2b982ffdf411a53f37d5ccc4c8188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 020/107] fix: fractional frame numbers in a track file are
 refused instead of shifting the columns

---
 vital/io/track_set_io.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vital/io/track_set_io.cxx b/vital/io/track_set_io.cxx
index e04d2ed..4b80748 100644
--- a/vital/io/track_set_io.cxx
+++ b/vital/io/track_set_io.cxx
@@ -37,6 +37,7 @@
 
 #include "track_set_io.h"
 
+#include <cctype>
 #include <fstream>
 #include <iostream>
 #include <sstream>
@@ -89,7 +90,7 @@ read_track_file( path_t const& file_path )
     frame_id_t fid;
     feature_d feat;
     std::stringstream ss( line );
-    if ( ! ( ss >> tid >> fid >> feat ) )
+    if ( ! ( ss >> tid >> fid ) || ! std::isspace( ss.peek() ) || ! ( ss >> feat ) )
     {
       throw file_not_read_exception( file_path,
             "Malformed track state: \"" + line + "\"" );
-- 
2.43.0


From 028cb8b80749e81fa5e2beab4f252241392a9035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 021/107] fix: copying an empty image memory block does not
 pass null to memcpy

---
 vital/types/image.cxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vital/types/image.cxx b/vital/types/image.cxx
index da718d9..e8fb76d 100644
--- a/vital/types/image.cxx
+++ b/vital/types/image.cxx
@@ -63,7 +63,10 @@ image_memory
   : data_( new char[other.size()] ),
     size_( other.size() )
 {
-  std::memcpy( data_, other.data_, size_ );
+  if ( size_ > 0 )
+  {
+    std::memcpy( data_, other.data_, size_ );
+  }
 }
 
 
@@ -96,7 +99,10 @@ image_memory
     size_ = other.size_;
   }
 
-  std::memcpy( data_, other.data_, size_ );
+  if ( size_ > 0 )
+  {
+    std::memcpy( data_, other.data_, size_ );
+  }
   return *this;
 }
 
-- 
2.43.0


From 5c1486180bdf06e34abe0de2c6ec89ef1cef28a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 022/107] fix: accessing the first channel of an image without
 channels is out of range

---
 vital/types/image.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vital/types/image.h b/vital/types/image.h
index d0ae048..d6836c7 100644
--- a/vital/types/image.h
+++ b/vital/types/image.h
@@ -233,7 +233,7 @@ public:
    */
   inline rgb_color at( unsigned i, unsigned j ) const
   {
-    if( i >= width_ || j >= height_ )
+    if( i >= width_ || j >= height_ || depth_ == 0 )
     {
       throw std::out_of_range("kwiver::vital::image::at(unsigned, unsigned) const");
     }
@@ -258,7 +258,7 @@ public:
    */
   inline byte& operator()( unsigned i, unsigned j )
   {
-    if( i >= width_ || j >= height_ )
+    if( i >= width_ || j >= height_ || depth_ == 0 )
     {
       throw std::out_of_range("kwiver::vital::image::operator()(unsigned, unsigned)");
     }
@@ -269,7 +269,7 @@ public:
   /// Const access pixels in the first channel of the image
   inline const byte& operator()( unsigned i, unsigned j ) const
   {
-    if( i >= width_ || j >= height_ )
+    if( i >= width_ || j >= height_ || depth_ == 0 )
     {
       throw std::out_of_range("kwiver::vital::image::operator()(unsigned, unsigned) const");
     }
-- 
2.43.0


From 196829c3259843895150810749f838c631cceb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 023/107] fix: the distortion Jacobian adds its second diagonal
 term to the second diagonal entry

---
 vital/types/camera_intrinsics.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/types/camera_intrinsics.cxx b/vital/types/camera_intrinsics.cxx
index b6b2c3e..5aef4db 100644
--- a/vital/types/camera_intrinsics.cxx
+++ b/vital/types/camera_intrinsics.cxx
@@ -223,7 +223,7 @@ distortion_jacobian( const Eigen::Matrix< T, 2, 1 >& pt,
     J( 0, 0 ) += ay + 3 * ax;
     J( 0, 1 ) += axy;
     J( 1, 0 ) += axy;
-    J( 0, 0 ) += 3 * ay + ax;
+    J( 1, 1 ) += 3 * ay + ax;
   }
   return J;
 }
-- 
2.43.0


From 689d6acfd1d90a34beee92367f9439517c307be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 024/107] fix: a similarity constructed from a matrix that is
 not one is the identity instead of uninitialised

---
 vital/types/similarity.cxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vital/types/similarity.cxx b/vital/types/similarity.cxx
index 436b373..0447f84 100644
--- a/vital/types/similarity.cxx
+++ b/vital/types/similarity.cxx
@@ -46,7 +46,9 @@ namespace vital {
 template < typename T >
 similarity_< T >
 ::similarity_( const Eigen::Matrix< T, 4, 4 >& M )
-  : m_logger( kwiver::vital::get_logger( "vital.similarity" ) )
+  : scale_( 1 ),
+  trans_( 0, 0, 0 ),
+  m_logger( kwiver::vital::get_logger( "vital.similarity" ) )
 {
   if ( ( M( 3, 0 ) != T( 0 ) )
        || ( M( 3, 1 ) != T( 0 ) )
@@ -59,8 +61,8 @@ similarity_< T >
     return;
   }
   Eigen::Matrix< T, 3, 3 > sr = M.template block< 3, 3 > ( 0, 0 );
-  this->scale_ = sr.determinant();
-  if ( this->scale_ <= T( 0 ) )
+  const T det = sr.determinant();
+  if ( det <= T( 0 ) )
   {
     // similarity must have positive scale
     // TODO throw an exception
@@ -68,7 +70,7 @@ similarity_< T >
     return;
   }
   // take the cube root
-  this->scale_ = std::pow( this->scale_, static_cast< T > ( 1 / 3.0 ) );
+  this->scale_ = std::pow( det, static_cast< T > ( 1 / 3.0 ) );
   // factor scale out of sr
   sr /= this->scale_;
   this->rot_ = rotation_< T > ( sr );
-- 
2.43.0


From 59cb2dcd660a06a959b4ea6b79bd543ce7046ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 025/107] fix: yaw, pitch and roll reproduce the rotation when
 the pitch is plus or minus 90 degrees

---
 vital/types/rotation.cxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vital/types/rotation.cxx b/vital/types/rotation.cxx
index c5c479c..bca5994 100644
--- a/vital/types/rotation.cxx
+++ b/vital/types/rotation.cxx
@@ -197,7 +197,14 @@ rotation_< T >
 
   yaw   = T( std::atan2( double( rotM( 0, 0 ) ), double( rotM( 0, 1 ) ) ) );
   pitch = T( std::atan2( double( rotM( 0, 2 ) ), double(cos_p) ) );
-  roll  = T( std::atan2( double( -rotM( 1, 2 ) ), double( -rotM( 2, 2 ) ) ) );
+
+  // Measure the roll after undoing the yaw found above. Unlike the entries of
+  // the third column this stays well defined, and consistent with that yaw,
+  // when the pitch is +/- 90 degrees.
+  const double cos_y = std::cos( double( yaw ) );
+  const double sin_y = std::sin( double( yaw ) );
+  roll  = T( std::atan2( sin_y * rotM( 2, 1 ) - cos_y * rotM( 2, 0 ),
+                         cos_y * rotM( 1, 0 ) - sin_y * rotM( 1, 1 ) ) );
 }
 
 
-- 
2.43.0


From 5856b981b286a948d46dedda6766abc8f0db26ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:59 +0000
Subject: [PATCH 026/107] fix: converting a covariance to another precision
 converts every element

---
 vital/types/covariance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/types/covariance.h b/vital/types/covariance.h
index 9c0b8e3..1dad0c4 100644
--- a/vital/types/covariance.h
+++ b/vital/types/covariance.h
@@ -68,7 +68,7 @@ public:
   {
     const U* in = other.data();
     T* out = this->data_;
-    for ( unsigned i = 0; i < N; ++i, ++in, ++out )
+    for ( unsigned i = 0; i < data_size; ++i, ++in, ++out )
     {
       *out = static_cast< T > ( *in );
     }
-- 
2.43.0


From 426cde2a96c580990358da4f0b04ba1ce466cb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:59 +0000
Subject: [PATCH 027/107] fix: features and landmarks converted from another
 precision keep their covariance

---
 vital/types/feature.cxx  | 1 +
 vital/types/landmark.cxx | 1 +
 2 files changed, 2 insertions(+)

diff --git a/vital/types/feature.cxx b/vital/types/feature.cxx
index 1a3361b..a728594 100644
--- a/vital/types/feature.cxx
+++ b/vital/types/feature.cxx
@@ -88,6 +88,7 @@ feature_< T >
   magnitude_( static_cast< T > ( f.magnitude() ) ),
   scale_( static_cast< T > ( f.scale() ) ),
   angle_( static_cast< T > ( f.angle() ) ),
+  covar_( f.covar() ),
   color_( f.color() )
 {
 }
diff --git a/vital/types/landmark.cxx b/vital/types/landmark.cxx
index 79682e8..2a15000 100644
--- a/vital/types/landmark.cxx
+++ b/vital/types/landmark.cxx
@@ -86,6 +86,7 @@ landmark_< T >
   : loc_( lm.loc().cast< T > () ),
     scale_( static_cast< T > ( lm.scale() ) ),
     normal_( lm.normal().cast< T > () ),
+    covar_( lm.covar() ),
     color_( lm.color() ),
     observations_( lm.observations() )
 {
-- 
2.43.0


From 958de712564b91c4d350267bda7187c25e6ac4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:59 +0000
Subject: [PATCH 028/107] fix: copies of a dynamic descriptor own their data

---
 vital/types/descriptor.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/vital/types/descriptor.h b/vital/types/descriptor.h
index 928ddc2..13e37d1 100644
--- a/vital/types/descriptor.h
+++ b/vital/types/descriptor.h
@@ -39,6 +39,7 @@
 #include <vital/vital_export.h>
 #include <vital/vital_config.h>
 
+#include <algorithm>
 #include <iostream>
 #include <vector>
 #include <memory>
@@ -163,6 +164,29 @@ public:
   : data_( new T[len] ),
   length_( len ) { }
 
+  /// Copy constructor
+  descriptor_dynamic< T > ( descriptor_dynamic< T > const& other )
+  : descriptor_array_of< T > ( other ),
+  data_( new T[other.length_] ),
+  length_( other.length_ )
+  {
+    std::copy( other.data_, other.data_ + length_, data_ );
+  }
+
+  /// Assignment operator
+  descriptor_dynamic< T >& operator=( descriptor_dynamic< T > const& other )
+  {
+    if ( this != &other )
+    {
+      T* const data = new T[other.length_];
+      std::copy( other.data_, other.data_ + other.length_, data );
+      delete [] data_;
+      data_ = data;
+      length_ = other.length_;
+    }
+    return *this;
+  }
+
   /// Destructor
   virtual ~descriptor_dynamic< T > ( ) { delete [] data_; }
 
-- 
2.43.0


From 24bf45e4ec228edd5f44d8f73f8f3f3b89fe0828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:39 +0000
Subject: [PATCH 029/107] fix: register_plugins(name) finds modules whose name
 contains a dot

---
 vital/algorithm_plugin_manager.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/algorithm_plugin_manager.cxx b/vital/algorithm_plugin_manager.cxx
index 41b7d30..f2769a0 100644
--- a/vital/algorithm_plugin_manager.cxx
+++ b/vital/algorithm_plugin_manager.cxx
@@ -174,7 +174,7 @@ public:
       // suffix and matches a provided module name if one was provided.
 
       if ( ( ST::GetFilenameLastExtension( file ) == shared_library_suffix ) &&
-           ( ( name.size() == 0 ) || ( ST::GetFilenameWithoutExtension( file ) == name ) ) )
+           ( ( name.size() == 0 ) || ( ST::GetFilenameWithoutLastExtension( file ) == name ) ) )
       {
         // Check that we're looking a file
         if ( ! ST::FileIsDirectory( file ) )
-- 
2.43.0


From ddea0d7effcc89e6de1d85e147175d1e1288bc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:39 +0000
Subject: [PATCH 030/107] fix: keep a plugin module open when it registered
 only some of its algorithms

---
 vital/algorithm_plugin_manager.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/algorithm_plugin_manager.cxx b/vital/algorithm_plugin_manager.cxx
index f2769a0..4da467e 100644
--- a/vital/algorithm_plugin_manager.cxx
+++ b/vital/algorithm_plugin_manager.cxx
@@ -247,7 +247,7 @@ public:
                 "more algorithms in plugin module, possibly due to duplicate "
                 "registration: " << module_path );
       // TODO: Throw exception here?
-      DL::CloseLibrary( library );
+      // The library stays open, as some of its algorithms may be registered.
       return false;
     }
     else
-- 
2.43.0


From 4337dd3311fe5f24f6817959b530bc34d226f0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:39 +0000
Subject: [PATCH 031/107] fix: a plugin module that reports an error by a
 negative value is not recorded as registered

---
 vital/algorithm_plugin_manager.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/algorithm_plugin_manager.cxx b/vital/algorithm_plugin_manager.cxx
index 4da467e..10a42c2 100644
--- a/vital/algorithm_plugin_manager.cxx
+++ b/vital/algorithm_plugin_manager.cxx
@@ -241,7 +241,7 @@ public:
     register_impls_func_t const register_impls =
       reinterpret_cast< register_impls_func_t > ( register_func );
 
-    if ( ( *register_impls )( registrar::instance() ) > 0 )
+    if ( ( *register_impls )( registrar::instance() ) != 0 )
     {
       LOG_WARN( m_logger, "Algorithm implementation registration failed for one or "
                 "more algorithms in plugin module, possibly due to duplicate "
-- 
2.43.0


From f9b02662a03b7248db192aa35a195b51694f7435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:51 +0000
Subject: [PATCH 032/107] fix: create the logger manager without an
 unsynchronised check

instance() read the pointer without holding the lock that guards its
creation, so another thread could use a manager it had not yet seen
being constructed.
---
 vital/logger/kwiver_logger_manager.cxx | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/vital/logger/kwiver_logger_manager.cxx b/vital/logger/kwiver_logger_manager.cxx
index 4830c47..9b211b5 100644
--- a/vital/logger/kwiver_logger_manager.cxx
+++ b/vital/logger/kwiver_logger_manager.cxx
@@ -162,11 +162,6 @@ kwiver_logger_manager * kwiver_logger_manager
 {
   static std::mutex local_lock;          // synchronization lock
 
-  if (0 != s_instance)
-  {
-    return s_instance;
-  }
-
   std::lock_guard<std::mutex> lock(local_lock);
   if (0 == s_instance)
   {
-- 
2.43.0


From 0e520b1edca2f7872bc8402d30bb1083dd34833c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:51 +0000
Subject: [PATCH 033/107] fix: serialise look-up and creation of default
 loggers

Concurrent get_logger() calls searched and modified one map without
synchronisation.
---
 vital/logger/default_logger.cxx | 2 ++
 vital/logger/default_logger.h   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/vital/logger/default_logger.cxx b/vital/logger/default_logger.cxx
index 44910df..14351f9 100644
--- a/vital/logger/default_logger.cxx
+++ b/vital/logger/default_logger.cxx
@@ -259,6 +259,8 @@ logger_handle_t
 logger_factory_default
 ::get_logger( std::string const& name )
 {
+  std::lock_guard< std::mutex > guard( m_loggers_mtx );
+
   // look for logger in the map
   std::map< std::string, logger_handle_t >::iterator it = m_active_loggers.find( name );
   if (it != m_active_loggers.end() )
diff --git a/vital/logger/default_logger.h b/vital/logger/default_logger.h
index e81315e..5f4095e 100644
--- a/vital/logger/default_logger.h
+++ b/vital/logger/default_logger.h
@@ -35,6 +35,7 @@
 #include "kwiver_logger_factory.h"
 
 #include <map>
+#include <mutex>
 #include <string>
 
 namespace kwiver {
@@ -71,6 +72,7 @@ public:
   virtual logger_handle_t get_logger( std::string const& name );
 
 private:
+  std::mutex m_loggers_mtx; // serialises access to the map
   std::map< std::string, logger_handle_t > m_active_loggers;
 
 }; // end class logger_factory
-- 
2.43.0


From 560f19be2e9806062faf9ef40601ccd7265612ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:51 +0000
Subject: [PATCH 034/107] fix: make the level of a default logger atomic

One thread may change the level while others test it.
---
 vital/logger/default_logger.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vital/logger/default_logger.cxx b/vital/logger/default_logger.cxx
index 14351f9..bb86340 100644
--- a/vital/logger/default_logger.cxx
+++ b/vital/logger/default_logger.cxx
@@ -33,6 +33,7 @@
 #include "default_logger.h"
 #include "kwiver_logger.h"
 
+#include <atomic>
 #include <memory>
 #include <mutex>
 #include <chrono>
@@ -240,7 +241,7 @@ private:
 
 
   // ##################################################################
-  log_level_t                  m_logLevel;       // current logging level
+  std::atomic< log_level_t >   m_logLevel;       // current logging level
 
   std::mutex                   m_formatter_mtx;
 
-- 
2.43.0


From 7e0bfd6d7a69f9e692f57ad5d4df726b5436db8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:51 +0000
Subject: [PATCH 035/107] fix: convert the time of a log message while holding
 the lock

localtime() returns a pointer to a shared buffer, which another thread
could overwrite before it was formatted.
---
 vital/logger/default_logger.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vital/logger/default_logger.cxx b/vital/logger/default_logger.cxx
index bb86340..cc23077 100644
--- a/vital/logger/default_logger.cxx
+++ b/vital/logger/default_logger.cxx
@@ -205,10 +205,11 @@ private:
 
     char buf[1024];
     time(&t);
-    strftime(buf, sizeof(buf), "%Y-%m-%d %H:%M:%S", localtime(&t));
 
     {
-      std::lock_guard< std::mutex > guard( lock ); // serialize access to stream
+      std::lock_guard< std::mutex > guard( lock ); // serialize access to stream and to localtime()
+      strftime(buf, sizeof(buf), "%Y-%m-%d %H:%M:%S", localtime(&t));
+
       std::ostream* str = &get_stream();
       while ( getline( ss, msg_part ) )
       {
-- 
2.43.0


From e1b18b6dd7ebc97c66969c0b186436293a451cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:51 +0000
Subject: [PATCH 036/107] fix: write the time of a log message consistently

Milliseconds were written without leading zeros, so that 5 ms appeared as
".5", and the seconds came from a second reading of the clock.
---
 vital/logger/default_logger.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vital/logger/default_logger.cxx b/vital/logger/default_logger.cxx
index cc23077..fb71d0a 100644
--- a/vital/logger/default_logger.cxx
+++ b/vital/logger/default_logger.cxx
@@ -196,7 +196,9 @@ private:
 
     seconds s = duration_cast<seconds>(ms);
     std::time_t t = s.count();
-    std::size_t fractional_seconds = ms.count() % 1000;
+    std::ostringstream fraction_str; // formatted apart to leave the settings of the output stream alone
+    fraction_str << std::setw( 3 ) << std::setfill( '0' ) << ( ms.count() % 1000 );
+    std::string const fraction = fraction_str.str();
 
     // Ensure that multi-line messages still get the time and level prefix
     std::string  const level_str = get_level_string( level );
@@ -204,7 +206,6 @@ private:
     std::istringstream ss( msg );
 
     char buf[1024];
-    time(&t);
 
     {
       std::lock_guard< std::mutex > guard( lock ); // serialize access to stream and to localtime()
@@ -214,7 +215,7 @@ private:
       while ( getline( ss, msg_part ) )
       {
         *str << buf
-             << '.' << fractional_seconds
+             << '.' << fraction
              << ' ' << level_str << ' ' << location << msg_part << '\n';
       }
     }
-- 
2.43.0


From 6226be218a225f6f4bfba66d5d91d718e2a4b932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:51 +0000
Subject: [PATCH 037/107] fix: log_message() honours the level of the logger

The interface documents that a message is only logged if its level is
enabled; the default logger wrote it regardless.
---
 vital/logger/default_logger.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vital/logger/default_logger.cxx b/vital/logger/default_logger.cxx
index fb71d0a..1435fd7 100644
--- a/vital/logger/default_logger.cxx
+++ b/vital/logger/default_logger.cxx
@@ -173,7 +173,7 @@ private:
   virtual void log_message( log_level_t         level,
                             std::string const&  msg )
   {
-    log_message_i( level, msg, "" );
+    if ( m_logLevel <= level ) { log_message_i( level, msg, "" ); }
   }
 
 
@@ -227,6 +227,8 @@ private:
                             std::string const&              msg,
                             logger_ns::location_info const& location )
   {
+    if ( m_logLevel > level ) { return; }
+
     // format location
     std::stringstream loc;
     loc << location.get_file_name() << "(" << location.get_line_number() << "): ";
-- 
2.43.0


From 17cf427b1c35692155978f783de7d1642be9c10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:51 +0000
Subject: [PATCH 038/107] fix: close the brace in LOG_ASSERT

Code using the macro did not compile.
---
 vital/logger/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/logger/logger.h b/vital/logger/logger.h
index 7eaf82d..5ab1be1 100644
--- a/vital/logger/logger.h
+++ b/vital/logger/logger.h
@@ -243,7 +243,7 @@ logger_handle_t VITAL_LOGGER_EXPORT get_logger( std::string const& name );
     if ( ! ( cond ) ) {                                        \
       std::stringstream _oss_; _oss_  << "ASSERTION FAILED: (" \
                                       << # cond ")\n"  << msg; \
-      logger->log_error( _oss_.str(), KWIVER_LOGGER_SITE );     \
+      logger->log_error( _oss_.str(), KWIVER_LOGGER_SITE ); }   \
 } while ( 0 )
 
 
-- 
2.43.0


From 2be0fefa0ffa6371b7b2b2bc7927059a54b1242a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:51 +0000
Subject: [PATCH 039/107] fix: create the plugin manager without an
 unsynchronised check

---
 vital/algorithm_plugin_manager.cxx | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/vital/algorithm_plugin_manager.cxx b/vital/algorithm_plugin_manager.cxx
index 10a42c2..351d9bb 100644
--- a/vital/algorithm_plugin_manager.cxx
+++ b/vital/algorithm_plugin_manager.cxx
@@ -321,11 +321,6 @@ algorithm_plugin_manager
 {
   static std::mutex local_lock;          // synchronization lock
 
-  if (0 != s_instance)
-  {
-    return *s_instance;
-  }
-
   std::lock_guard<std::mutex> lock(local_lock);
   if (0 == s_instance)
   {
-- 
2.43.0


From 12602604c4c10e937aac46267702f775a6956dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:51 +0000
Subject: [PATCH 040/107] fix: test whether plugins have been loaded under the
 lock

The flag was read without synchronisation, so a caller could miss what
the loading thread had written.
---
 vital/algorithm_plugin_manager.cxx | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/vital/algorithm_plugin_manager.cxx b/vital/algorithm_plugin_manager.cxx
index 351d9bb..e99bdbe 100644
--- a/vital/algorithm_plugin_manager.cxx
+++ b/vital/algorithm_plugin_manager.cxx
@@ -340,11 +340,6 @@ algorithm_plugin_manager
    static bool first( true );
    static std::mutex local_lock;          // synchronization lock
 
-   if ( ! first )
-   {
-     return false;
-   }
-
    std::lock_guard<std::mutex> lock(local_lock);
    if ( first )
    {
-- 
2.43.0


From 63fd5e91e95a4b40cfc7aadf8d1284c0c9963b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:51 +0000
Subject: [PATCH 041/107] fix: do not share the tokenizer expressions between
 parsers

A RegularExpression holds the state of its last match, so two threads
reading different files corrupted each other's tokens.
---
 vital/config/config_parser.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index 9dfa3ed..d840cc4 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -571,8 +571,8 @@ public:
   {
     // Words are LHS tokens, which start with a letter, and can not end with a ':'
     // A *word* can contain these symbols "- _ : . /"
-    static kwiversys::RegularExpression re_word( "^[a-zA-Z]([-a-zA-Z0-9.:/_]*[-a-zA-Z0-9./_])?" );
-    static kwiversys::RegularExpression re_flag( "^\\[[a-zA-Z,]+\\]" );
+    kwiversys::RegularExpression re_word( "^[a-zA-Z]([-a-zA-Z0-9.:/_]*[-a-zA-Z0-9./_])?" );
+    kwiversys::RegularExpression re_flag( "^\\[[a-zA-Z,]+\\]" );
 
     // Test for end of line while processing
     if ( m_token_line.size() == 0)
-- 
2.43.0


From 521089eeb3bf5cf6700094f4deb9f54bd4a026c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:51 +0000
Subject: [PATCH 042/107] fix: do not share the macro expression between token
 expanders

---
 vital/config/token_expander.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/config/token_expander.cxx b/vital/config/token_expander.cxx
index a5f98c9..85a86e3 100644
--- a/vital/config/token_expander.cxx
+++ b/vital/config/token_expander.cxx
@@ -86,7 +86,7 @@ token_expander::
 expand_token( std::string const& initial_string )
 {
   std::string new_value;
-  static kwiversys::RegularExpression exp( "\\$([a-zA-Z][a-zA-Z0-9_]*)\\{([-a-zA-Z0-9._:/]+)?\\}" );
+  kwiversys::RegularExpression exp( "\\$([a-zA-Z][a-zA-Z0-9_]*)\\{([-a-zA-Z0-9._:/]+)?\\}" );
 
   std::string::const_iterator start, end;
   start = initial_string.begin();
-- 
2.43.0


From b992140a57e0469a988bda77450fa0bfdb42d751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:24 +0000
Subject: [PATCH 043/107] fix: extract class and method names from signatures
 with nested brackets

Blanks, colons and parentheses inside template arguments, operator names
and the anonymous namespace were taken for separators.
---
 vital/logger/location_info.cxx | 161 ++++++++++++++++++++++-----------
 1 file changed, 110 insertions(+), 51 deletions(-)

diff --git a/vital/logger/location_info.cxx b/vital/logger/location_info.cxx
index 6a2cef7..a5c0b5a 100644
--- a/vital/logger/location_info.cxx
+++ b/vital/logger/location_info.cxx
@@ -32,6 +32,8 @@
 
 #include <kwiversys/SystemTools.hxx>
 
+#include <cctype>
+
 namespace kwiver {
 namespace vital {
 namespace logger_ns {
@@ -46,6 +48,108 @@ const char* const location_info::NA = "?";
 const char* const location_info::NA_METHOD = "?::?";
 
 
+namespace {
+
+// ----------------------------------------------------------------
+/** Split function signature.
+ *
+ * Extract the (qualified) class name and the method name from a
+ * function signature, which has the form
+ * "type class::method(parameters) qualifiers". Blanks, colons and
+ * parentheses that are nested in brackets, such as template
+ * arguments, do not separate these parts.
+ */
+void
+split_signature( std::string const& sig,
+                 std::string&       class_name,
+                 std::string&       method_name )
+{
+  static std::string const op( "operator" );
+  static std::string const anon( "(anonymous namespace)" );
+
+  std::string brackets;                 // closing brackets that are expected
+  size_t start( 0 );                    // start of qualified name
+  size_t colons( std::string::npos );   // last "::" in qualified name
+  size_t pos( 0 );
+
+  while ( pos < sig.size() )
+  {
+    char const c = sig[pos];
+
+    if ( ! brackets.empty() )
+    {
+      // ">" does not close anything but a template argument list
+      if ( c == brackets[brackets.size() - 1] ) { brackets.erase( brackets.size() - 1 ); }
+      else if ( c == '<' && brackets[brackets.size() - 1] != ')' ) { brackets += '>'; }
+      else if ( c == '(' ) { brackets += ')'; }
+      else if ( c == '[' ) { brackets += ']'; }
+      else if ( c == '{' ) { brackets += '}'; }
+      ++pos;
+    }
+    else if ( ( pos == start || sig[pos - 1] == ':' ) &&
+              sig.compare( pos, op.size(), op ) == 0 &&
+              pos + op.size() < sig.size() &&
+              ! ( isalnum( static_cast< unsigned char >( sig[pos + op.size()] ) ) || sig[pos + op.size()] == '_' ) )
+    {
+      // Operator name. Find the start of the parameters.
+      pos += op.size();
+      if ( sig.compare( pos, 2, "()" ) == 0 ) { pos += 2; }
+      else if ( sig[pos] != ' ' ) { pos = sig.find_first_of( "(", pos ); break; }
+
+      while ( pos < sig.size() && ( ! brackets.empty() || sig[pos] != '(' ) )
+      {
+        if ( sig[pos] == '<' ) { brackets += '>'; }
+        else if ( sig[pos] == '(' ) { brackets += ')'; }
+        else if ( ! brackets.empty() && sig[pos] == brackets[brackets.size() - 1] ) { brackets.erase( brackets.size() - 1 ); }
+        ++pos;
+      }
+      break;
+    }
+    else if ( c == '(' && sig.compare( pos, anon.size(), anon ) == 0 )
+    {
+      pos += anon.size();
+    }
+    else if ( c == '(' && pos + 1 < sig.size() && ( sig[pos + 1] == '*' || sig[pos + 1] == '&' ) )
+    {
+      // function returning pointer (or reference) to function
+      ++pos;
+    }
+    else if ( c == '(' )
+    {
+      break;                            // start of parameters
+    }
+    else
+    {
+      if ( c == '<' ) { brackets += '>'; }
+      else if ( c == '[' ) { brackets += ']'; }
+      else if ( c == '{' ) { brackets += '}'; }
+      else if ( c == ' ' || c == '*' || c == '&' )
+      {
+        // all up to here is return type
+        start = pos + 1;
+        colons = std::string::npos;
+      }
+      else if ( sig.compare( pos, 2, "::" ) == 0 )
+      {
+        colons = pos;
+        ++pos;
+      }
+      ++pos;
+    }
+  }
+
+  if ( pos > sig.size() ) { pos = sig.size(); }
+
+  // no class if no "::"
+  class_name = ( colons == std::string::npos ) ? std::string() : sig.substr( start, colons - start );
+
+  size_t const name = ( colons == std::string::npos ) ? start : colons + 2;
+  method_name = sig.substr( name, pos - name );
+}
+
+} // end namespace
+
+
 // ----------------------------------------------------------------
 /** Constructor.
  *
@@ -102,28 +206,9 @@ std::string location_info
 std::string location_info
 ::get_method_name() const
 {
-  std::string tmp(m_methodName);
-
-  // Clear all parameters from signature
-  size_t parenPos = tmp.find('(');
-  if (parenPos != std::string::npos)
-  {
-    tmp.erase(parenPos);
-  }
-
-  size_t colonPos = tmp.rfind("::");
-  if (colonPos != std::string::npos)
-  {
-    tmp.erase(0, colonPos + 2);
-  }
-
-  size_t spacePos = tmp.rfind(' ');
-  if (spacePos != std::string::npos)
-  {
-    tmp.erase(0, spacePos + 1);
-  }
-
-  return ( tmp );
+  std::string class_name, method_name;
+  split_signature( m_methodName, class_name, method_name );
+  return method_name;
 }
 
 
@@ -131,35 +216,9 @@ std::string location_info
 std::string location_info
 ::get_class_name() const
 {
-  std::string tmp(m_methodName);
-
-  // Clear all parameters from signature
-  size_t parenPos = tmp.find('(');
-  if (parenPos != std::string::npos)
-  {
-    tmp.erase(parenPos);
-  }
-
-  // Erase return type if any
-  size_t spacePos = tmp.rfind(' ');
-  if (spacePos != std::string::npos)
-  {
-    tmp.erase(0, spacePos + 1);
-  }
-
-  // erase all characters after last "::"
-  size_t colonPos = tmp.rfind("::");
-  if (colonPos != std::string::npos)
-  {
-    tmp.erase(colonPos);
-  }
-  else
-  {
-    // no class if no "::"
-    tmp.clear();
-  }
-
-  return ( tmp );
+  std::string class_name, method_name;
+  split_signature( m_methodName, class_name, method_name );
+  return class_name;
 }
 
 
-- 
2.43.0


From e687a0226dc95c84771714e4fff697ddffcec666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:29 +0000
Subject: [PATCH 044/107] fix: keep the work variables of regular expressions
 out of static storage

compile() and find() kept their state in file-scope variables, so using
any two expressions from two threads corrupted both.
---
 vital/kwiversys/RegularExpression.cxx | 134 +++++++++++++-------------
 1 file changed, 68 insertions(+), 66 deletions(-)

diff --git a/vital/kwiversys/RegularExpression.cxx b/vital/kwiversys/RegularExpression.cxx
index 598e7ca..21ee3f9 100644
--- a/vital/kwiversys/RegularExpression.cxx
+++ b/vital/kwiversys/RegularExpression.cxx
@@ -292,32 +292,32 @@ const unsigned char MAGIC = 0234;
 /////////////////////////////////////////////////////////////////////////
 
 
-/*
- * Global work variables for compile().
- */
-static const char* regparse;    // Input-scan pointer.
-static       int   regnpar;     // () count.
-static       char  regdummy;
-static       char* regcode;     // Code-emit pointer; &regdummy = don't.
-static       long  regsize;     // Code size.
+static char regdummy;           // Address to emit code to when not emitting any.
+
+static const char* regnext (const char*);
+static char*       regnext (char*);
 
 /*
- * Forward declarations for compile()'s friends.
+ * Work variables and helpers for compile(). Kept in an object of their own
+ * for every call, so that expressions can be compiled from several threads.
  */
-// #ifndef static
-// #define      static  static
-// #endif
-static       char* reg (int, int*);
-static       char* regbranch (int*);
-static       char* regpiece (int*);
-static       char* regatom (int*);
-static       char* regnode (char);
-static const char* regnext (const char*);
-static       char* regnext (char*);
-static void        regc (char);
-static void        reginsert (char, char*);
-static void        regtail (char*, const char*);
-static void        regoptail (char*, const char*);
+class RegExpCompile {
+public:
+    const char* regparse;       // Input-scan pointer.
+    int   regnpar;              // () count.
+    char* regcode;              // Code-emit pointer; &regdummy = don't.
+    long  regsize;              // Code size.
+
+    char* reg (int, int*);
+    char* regbranch (int*);
+    char* regpiece (int*);
+    char* regatom (int*);
+    char* regnode (char);
+    void  regc (char);
+    void  reginsert (char, char*);
+    static void regtail (char*, const char*);
+    static void regoptail (char*, const char*);
+};
 
 #ifdef STRCSPN
 static int strcspn ();
@@ -356,12 +356,13 @@ bool RegularExpression::compile (const char* exp) {
     }
 
     // First pass: determine size, legality.
-    regparse = exp;
-    regnpar = 1;
-    regsize = 0L;
-    regcode = &regdummy;
-    regc(static_cast<char>(MAGIC));
-    if(!reg(0, &flags))
+    RegExpCompile comp;
+    comp.regparse = exp;
+    comp.regnpar = 1;
+    comp.regsize = 0L;
+    comp.regcode = &regdummy;
+    comp.regc(static_cast<char>(MAGIC));
+    if(!comp.reg(0, &flags))
       {
         printf ("RegularExpression::compile(): Error in compile.\n");
         return false;
@@ -369,7 +370,7 @@ bool RegularExpression::compile (const char* exp) {
     this->startp[0] = this->endp[0] = this->searchstring = 0;
 
     // Small enough for pointer-storage convention?
-    if (regsize >= 32767L) {    // Probably could be 65535L.
+    if (comp.regsize >= 32767L) {    // Probably could be 65535L.
       //RAISE Error, SYM(RegularExpression), SYM(Expr_Too_Big),
       printf ("RegularExpression::compile(): Expression too big.\n");
       return false;
@@ -379,8 +380,8 @@ bool RegularExpression::compile (const char* exp) {
 //#ifndef WIN32
     if (this->program != 0) delete [] this->program;
 //#endif
-    this->program = new char[regsize];
-    this->progsize = static_cast<int>(regsize);
+    this->program = new char[comp.regsize];
+    this->progsize = static_cast<int>(comp.regsize);
 
     if (this->program == 0) {
       //RAISE Error, SYM(RegularExpression), SYM(Out_Of_Memory),
@@ -389,11 +390,11 @@ bool RegularExpression::compile (const char* exp) {
     }
 
     // Second pass: emit code.
-    regparse = exp;
-    regnpar = 1;
-    regcode = this->program;
-    regc(static_cast<char>(MAGIC));
-    reg(0, &flags);
+    comp.regparse = exp;
+    comp.regnpar = 1;
+    comp.regcode = this->program;
+    comp.regc(static_cast<char>(MAGIC));
+    comp.reg(0, &flags);
 
     // Dig out information for optimizations.
     this->regstart = '\0';              // Worst-case defaults.
@@ -443,7 +444,7 @@ bool RegularExpression::compile (const char* exp) {
  * is a trifle forced, but the need to tie the tails of the branches to what
  * follows makes it hard to avoid.
  */
-static char* reg (int paren, int *flagp) {
+char* RegExpCompile::reg (int paren, int *flagp) {
     char* ret;
     char* br;
     char* ender;
@@ -524,7 +525,7 @@ static char* reg (int paren, int *flagp) {
  *
  * Implements the concatenation operator.
  */
-static char* regbranch (int *flagp) {
+char* RegExpCompile::regbranch (int *flagp) {
     char* ret;
     char* chain;
     char* latest;
@@ -561,7 +562,7 @@ static char* regbranch (int *flagp) {
  * It might seem that this node could be dispensed with entirely, but the
  * endmarker role is not redundant.
  */
-static char* regpiece (int *flagp) {
+char* RegExpCompile::regpiece (int *flagp) {
     char* ret;
     char  op;
     char* next;
@@ -630,7 +631,7 @@ static char* regpiece (int *flagp) {
  * faster to run.  Backslashed characters are exceptions, each becoming a
  * separate node; the code is simpler that way and it's not worth fixing.
  */
-static char* regatom (int *flagp) {
+char* RegExpCompile::regatom (int *flagp) {
     char* ret;
     int   flags;
 
@@ -753,7 +754,7 @@ static char* regatom (int *flagp) {
  - regnode - emit a node
    Location.
  */
-static char* regnode (char op) {
+char* RegExpCompile::regnode (char op) {
     char* ret;
     char* ptr;
 
@@ -776,7 +777,7 @@ static char* regnode (char op) {
 /*
  - regc - emit (if appropriate) a byte of code
  */
-static void regc (char b) {
+void RegExpCompile::regc (char b) {
     if (regcode != &regdummy)
         *regcode++ = b;
     else
@@ -789,7 +790,7 @@ static void regc (char b) {
  *
  * Means relocating the operand.
  */
-static void reginsert (char op, char* opnd) {
+void RegExpCompile::reginsert (char op, char* opnd) {
     char* src;
     char* dst;
     char* place;
@@ -815,7 +816,7 @@ static void reginsert (char op, char* opnd) {
 /*
  - regtail - set the next-pointer at the end of a node chain
  */
-static void regtail (char* p, const char* val) {
+void RegExpCompile::regtail (char* p, const char* val) {
     char* scan;
     char* temp;
     int   offset;
@@ -844,7 +845,7 @@ static void regtail (char* p, const char* val) {
 /*
  - regoptail - regtail on operand of first argument; nop if operandless
  */
-static void regoptail (char* p, const char* val) {
+void RegExpCompile::regoptail (char* p, const char* val) {
     // "Operandless" and "op != BRANCH" are synonymous in practice.
     if (p == 0 || p == &regdummy || OP(p) != BRANCH)
         return;
@@ -861,20 +862,20 @@ static void regoptail (char* p, const char* val) {
 
 
 /*
- * Global work variables for find().
- */
-static const char*  reginput;   // String-input pointer.
-static const char*  regbol;     // Beginning of input, for ^ check.
-static const char* *regstartp;  // Pointer to startp array.
-static const char* *regendp;    // Ditto for endp.
-
-/*
- * Forwards.
+ * Work variables and helpers for find(), one object for every call.
  */
-static int regtry (const char*, const char* *,
-                   const char* *, const char*);
-static int regmatch (const char*);
-static int regrepeat (const char*);
+class RegExpFind {
+public:
+    const char*  reginput;      // String-input pointer.
+    const char*  regbol;        // Beginning of input, for ^ check.
+    const char* *regstartp;     // Pointer to startp array.
+    const char* *regendp;       // Ditto for endp.
+
+    int regtry (const char*, const char* *,
+                const char* *, const char*);
+    int regmatch (const char*);
+    int regrepeat (const char*);
+};
 
 #ifdef DEBUG
 int          regnarrate = 0;
@@ -915,18 +916,19 @@ bool RegularExpression::find (const char* string) {
     }
 
     // Mark beginning of line for ^ .
-    regbol = string;
+    RegExpFind finder;
+    finder.regbol = string;
 
     // Simplest case:  anchored match need be tried only once.
     if (this->reganch)
-        return (regtry(string, this->startp, this->endp, this->program) != 0);
+        return (finder.regtry(string, this->startp, this->endp, this->program) != 0);
 
     // Messy cases:  unanchored match.
     s = string;
     if (this->regstart != '\0')
         // We know what char it must start with.
         while ((s = strchr(s, this->regstart)) != 0) {
-            if (regtry(s, this->startp, this->endp, this->program))
+            if (finder.regtry(s, this->startp, this->endp, this->program))
                 return (1);
             s++;
 
@@ -934,7 +936,7 @@ bool RegularExpression::find (const char* string) {
     else
         // We don't -- general case.
         do {
-            if (regtry(s, this->startp, this->endp, this->program))
+            if (finder.regtry(s, this->startp, this->endp, this->program))
                 return (1);
         } while (*s++ != '\0');
 
@@ -947,7 +949,7 @@ bool RegularExpression::find (const char* string) {
  - regtry - try match at specific point
    0 failure, 1 success
  */
-static int regtry (const char* string, const char* *start,
+int RegExpFind::regtry (const char* string, const char* *start,
                    const char* *end, const char* prog) {
                    int    i;
                    const char* *sp1;
@@ -984,7 +986,7 @@ static int regtry (const char* string, const char* *start,
  * by recursion.
  * 0 failure, 1 success
  */
-static int regmatch (const char* prog) {
+int RegExpFind::regmatch (const char* prog) {
     const char* scan;  // Current node.
     const char* next;  // Next node.
 
@@ -1166,7 +1168,7 @@ static int regmatch (const char* prog) {
 /*
  - regrepeat - repeatedly match something simple, report how many
  */
-static int regrepeat (const char* p) {
+int RegExpFind::regrepeat (const char* p) {
     int         count = 0;
     const char* scan;
     const char* opnd;
-- 
2.43.0


From 4aadf21b71a4fb64ad3a65673e5cbded6b522bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:27 +0000
Subject: [PATCH 045/107] fix: copy the whole last match with a regular
 expression and free the replaced program

---
 vital/kwiversys/RegularExpression.cxx | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/vital/kwiversys/RegularExpression.cxx b/vital/kwiversys/RegularExpression.cxx
index 21ee3f9..5171895 100644
--- a/vital/kwiversys/RegularExpression.cxx
+++ b/vital/kwiversys/RegularExpression.cxx
@@ -55,8 +55,12 @@ RegularExpression::RegularExpression (const RegularExpression& rxp) {
   this->program = new char[this->progsize];     // Allocate storage
   for(ind=this->progsize; ind-- != 0;)          // Copy regular expresion
     this->program[ind] = rxp.program[ind];
-  this->startp[0] = rxp.startp[0];              // Copy pointers into last
-  this->endp[0] = rxp.endp[0];                  // Successful "find" operation
+  for(ind=NSUBEXP; ind-- != 0;)                 // Copy pointers into last
+    {                                           // Successful "find" operation
+    this->startp[ind] = rxp.startp[ind];
+    this->endp[ind] = rxp.endp[ind];
+    }
+  this->searchstring = rxp.searchstring;        // Copy string they point into
   this->regmust = rxp.regmust;                  // Copy field
   if (rxp.regmust != 0) {
     char* dum = rxp.program;
@@ -81,6 +85,7 @@ RegularExpression& RegularExpression::operator= (const RegularExpression& rxp)
     }
   if ( !rxp.program )
     {
+    delete [] this->program;
     this->program = 0;
     return *this;
     }
@@ -90,8 +95,12 @@ RegularExpression& RegularExpression::operator= (const RegularExpression& rxp)
   this->program = new char[this->progsize];     // Allocate storage
   for(ind=this->progsize; ind-- != 0;)          // Copy regular expresion
     this->program[ind] = rxp.program[ind];
-  this->startp[0] = rxp.startp[0];              // Copy pointers into last
-  this->endp[0] = rxp.endp[0];                  // Successful "find" operation
+  for(ind=NSUBEXP; ind-- != 0;)                 // Copy pointers into last
+    {                                           // Successful "find" operation
+    this->startp[ind] = rxp.startp[ind];
+    this->endp[ind] = rxp.endp[ind];
+    }
+  this->searchstring = rxp.searchstring;        // Copy string they point into
   this->regmust = rxp.regmust;                  // Copy field
   if (rxp.regmust != 0) {
     char* dum = rxp.program;
-- 
2.43.0


From 51ee2711d614c3ab3317b3df6a61b0278eb41290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:27 +0000
Subject: [PATCH 046/107] fix: compare invalid regular expressions without
 dereferencing null

---
 vital/kwiversys/RegularExpression.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vital/kwiversys/RegularExpression.cxx b/vital/kwiversys/RegularExpression.cxx
index 5171895..ea882a5 100644
--- a/vital/kwiversys/RegularExpression.cxx
+++ b/vital/kwiversys/RegularExpression.cxx
@@ -122,6 +122,8 @@ RegularExpression& RegularExpression::operator= (const RegularExpression& rxp)
 // compiled program for pattern matching.
 bool RegularExpression::operator== (const RegularExpression& rxp) const {
   if (this != &rxp) {                           // Same address?
+    if (!this->program || !rxp.program)         // If either is invalid
+      return this->program == rxp.program;      // Both must be
     int ind = this->progsize;                   // Get regular expression size
     if (ind != rxp.progsize)                    // If different size regexp
       return false;                             // Return failure
@@ -137,6 +139,8 @@ bool RegularExpression::operator== (const RegularExpression& rxp) const {
 // and the same start and end pointers.
 
 bool RegularExpression::deep_equal (const RegularExpression& rxp) const {
+  if (!this->program || !rxp.program)           // If either is invalid
+    return this->program == rxp.program;        // Both must be
   int ind = this->progsize;                     // Get regular expression size
   if (ind != rxp.progsize)                      // If different size regexp
     return false;                               // Return failure
-- 
2.43.0


From 534af055777607e7dcda5b93b2cad82303c78c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:50 +0000
Subject: [PATCH 047/107] fix: give the camera map and algorithm functions of
 the C interface C linkage

---
 vital/bindings/c/algorithm.cxx  |  5 ++---
 vital/bindings/c/camera_map.cxx | 25 ++++++++++++-------------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/vital/bindings/c/algorithm.cxx b/vital/bindings/c/algorithm.cxx
index 81f399e..e556d41 100644
--- a/vital/bindings/c/algorithm.cxx
+++ b/vital/bindings/c/algorithm.cxx
@@ -52,7 +52,7 @@ namespace vital_c {
 SharedPointerCache< kwiver::vital::algorithm,
                     vital_algorithm_t > ALGORITHM_SPTR_CACHE( "algorithm" );
 
-}
+} } // end namespace
 
 
 // ===========================================================================
@@ -127,5 +127,4 @@ vital_algorithm_check_impl_configuration( vital_algorithm_t *algo,
     );
   );
   return false;
-
-} } // end namespace
+}
diff --git a/vital/bindings/c/camera_map.cxx b/vital/bindings/c/camera_map.cxx
index 2d3c432..df9cd55 100644
--- a/vital/bindings/c/camera_map.cxx
+++ b/vital/bindings/c/camera_map.cxx
@@ -49,7 +49,7 @@ namespace vital_c {
 SharedPointerCache< vital::camera_map,
                     vital_camera_map_t > CAM_MAP_SPTR_CACHE( "camera_map" );
 
-}
+} }
 
 
 /// New, simple camera map
@@ -66,13 +66,13 @@ vital_camera_map_t* vital_camera_map_new( size_t length,
     // Create std::map of the paired items given
     // This assumes that the sptr type defined in the cache type is the same as
     // the type defined in C++-land (which is should be?)
-    vital::camera_map::map_camera_t cmap;
+    kwiver::vital::camera_map::map_camera_t cmap;
     for( size_t i=0; i < length; i++ )
     {
-      cmap[frame_numbers[i]] = vital_c::CAMERA_SPTR_CACHE.get( cameras[i] );
+      cmap[frame_numbers[i]] = kwiver::vital_c::CAMERA_SPTR_CACHE.get( cameras[i] );
     }
-    vital::camera_map_sptr cm_sptr( new vital::simple_camera_map( cmap ) );
-    vital_c::CAM_MAP_SPTR_CACHE.store( cm_sptr );
+    kwiver::vital::camera_map_sptr cm_sptr( new kwiver::vital::simple_camera_map( cmap ) );
+    kwiver::vital_c::CAM_MAP_SPTR_CACHE.store( cm_sptr );
     return reinterpret_cast<vital_camera_map_t*>( cm_sptr.get() );
   );
   return 0;
@@ -85,7 +85,7 @@ void vital_camera_map_destroy( vital_camera_map_t *cam_map,
 {
   STANDARD_CATCH(
     "C::camera_map::destroy", eh,
-    vital_c::CAM_MAP_SPTR_CACHE.erase( cam_map );
+    kwiver::vital_c::CAM_MAP_SPTR_CACHE.erase( cam_map );
   );
 }
 
@@ -96,7 +96,7 @@ size_t vital_camera_map_size( vital_camera_map_t *cam_map,
 {
   STANDARD_CATCH(
     "C::camera_map::size", eh,
-    return vital_c::CAM_MAP_SPTR_CACHE.get( cam_map )->size();
+    return kwiver::vital_c::CAM_MAP_SPTR_CACHE.get( cam_map )->size();
   );
   return 0;
 }
@@ -111,19 +111,18 @@ void vital_camera_map_get_map( vital_camera_map_t *cam_map,
 {
   STANDARD_CATCH(
     "C::camera_map::get_map", eh,
-    vital::camera_map::map_camera_t map_cams =
-      vital_c::CAM_MAP_SPTR_CACHE.get( cam_map )->cameras();
+    kwiver::vital::camera_map::map_camera_t map_cams =
+      kwiver::vital_c::CAM_MAP_SPTR_CACHE.get( cam_map )->cameras();
     *length = map_cams.size();
     *frame_numbers = (unsigned int*)malloc(sizeof(unsigned int) * *length);
     *cameras = (vital_camera_t**)malloc(sizeof(vital_camera_t*) * *length);
     size_t i=0;
-    VITAL_FOREACH( vital::camera_map::map_camera_t::value_type const& p, map_cams )
+    VITAL_FOREACH( kwiver::vital::camera_map::map_camera_t::value_type const& p, map_cams )
     {
       (*frame_numbers)[i] = static_cast< unsigned int >(p.first);
-      vital_c::CAMERA_SPTR_CACHE.store( p.second );
+      kwiver::vital_c::CAMERA_SPTR_CACHE.store( p.second );
       (*cameras)[i] = reinterpret_cast<vital_camera_t*>( p.second.get() );
       ++i;
     }
   );
-
-} }
+}
-- 
2.43.0


From ea588799195d8b032350c92083ef38233e249b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:50 +0000
Subject: [PATCH 048/107] fix: return the result of checking an algorithm
 configuration from the C interface

---
 vital/bindings/c/algorithm.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/bindings/c/algorithm.cxx b/vital/bindings/c/algorithm.cxx
index e556d41..f225f43 100644
--- a/vital/bindings/c/algorithm.cxx
+++ b/vital/bindings/c/algorithm.cxx
@@ -122,7 +122,7 @@ vital_algorithm_check_impl_configuration( vital_algorithm_t *algo,
 {
   STANDARD_CATCH(
     "C::algorithm::check_impl_configuration", eh,
-    kwiver::vital_c::ALGORITHM_SPTR_CACHE.get( algo )->check_configuration(
+    return kwiver::vital_c::ALGORITHM_SPTR_CACHE.get( algo )->check_configuration(
       kwiver::vital_c::CONFIG_BLOCK_SPTR_CACHE.get( cb )
     );
   );
-- 
2.43.0


From 9a97be2bca72c60a6ef6e2977f93f2f8362d3af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:59 +0000
Subject: [PATCH 049/107] fix: terminate the strings of string lists in the C
 interface within their buffers

---
 vital/bindings/c/helpers/c_utils.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/bindings/c/helpers/c_utils.cxx b/vital/bindings/c/helpers/c_utils.cxx
index f21dff0..6876968 100644
--- a/vital/bindings/c/helpers/c_utils.cxx
+++ b/vital/bindings/c/helpers/c_utils.cxx
@@ -46,7 +46,7 @@ void make_string_list( std::vector<std::string> const &list,
   strings = (char**)malloc( sizeof(char*) * length );
   for( unsigned int i = 0; i < length; i++ )
   {
-    strings[i] = (char*)malloc(sizeof(char) * list[i].length());
+    strings[i] = (char*)malloc(sizeof(char) * (list[i].length() + 1));
     std::strcpy( strings[i], list[i].c_str() );
   }
 }
-- 
2.43.0


From 0a8348024e1fbf80b9d655341cc07d93f19f800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:59 +0000
Subject: [PATCH 050/107] fix: size error messages of the C interface, release
 replaced ones and accept null handles

---
 vital/bindings/c/config_block.cxx  | 16 ++++------------
 vital/bindings/c/helpers/c_utils.h |  4 +++-
 2 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/vital/bindings/c/config_block.cxx b/vital/bindings/c/config_block.cxx
index 6437c1a..79f2ef8 100644
--- a/vital/bindings/c/config_block.cxx
+++ b/vital/bindings/c/config_block.cxx
@@ -404,21 +404,15 @@ read_config_file_helper( vital_error_handle_t* eh, Args... args )
   }
   catch ( kwiver::vital::config_file_not_found_exception const& e )
   {
-    eh->error_code = 1;
-    eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-    strcpy( eh->message, e.what() );
+    POPULATE_EH( eh, 1, e.what() );
   }
   catch ( kwiver::vital::config_file_not_read_exception const& e )
   {
-    eh->error_code = 2;
-    eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-    strcpy( eh->message, e.what() );
+    POPULATE_EH( eh, 2, e.what() );
   }
   catch ( kwiver::vital::config_file_not_parsed_exception const& e )
   {
-    eh->error_code = 3;
-    eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-    strcpy( eh->message, e.what() );
+    POPULATE_EH( eh, 3, e.what() );
   }
 
   return 0;
@@ -478,9 +472,7 @@ vital_config_block_file_write( vital_config_block_t*  cb,
     }
     catch ( kwiver::vital::config_file_write_exception const& e )
     {
-      eh->error_code = 1;
-      eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-      strcpy( eh->message, e.what() );
+      POPULATE_EH( eh, 1, e.what() );
     }
 
                 );
diff --git a/vital/bindings/c/helpers/c_utils.h b/vital/bindings/c/helpers/c_utils.h
index 16ec7ae..58f418e 100644
--- a/vital/bindings/c/helpers/c_utils.h
+++ b/vital/bindings/c/helpers/c_utils.h
@@ -70,7 +70,9 @@ static auto m_logger( kwiver::vital::get_logger( "vital.c_utils" ) );
       vital_error_handle_t *PEH_eh_ptr_cast =                                \
         reinterpret_cast<vital_error_handle_t*>(eh_ptr);                     \
       PEH_eh_ptr_cast->error_code = ec;                                      \
-      PEH_eh_ptr_cast->message = (char*)malloc(sizeof(char) * strlen(msg));  \
+      /* the handle may still hold the message of an earlier error */        \
+      free(PEH_eh_ptr_cast->message);                                        \
+      PEH_eh_ptr_cast->message = (char*)malloc(strlen(msg) + 1);             \
       strcpy(PEH_eh_ptr_cast->message, msg);                                 \
     }                                                                        \
   } while(0)
-- 
2.43.0


From 57acfd4274609cfab400e6ff0589823d5e5f9b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:42 +0000
Subject: [PATCH 051/107] fix: release the camera when reading a krtd file
 fails

---
 vital/io/camera_io.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/io/camera_io.cxx b/vital/io/camera_io.cxx
index 799e3d8..4e0a96e 100644
--- a/vital/io/camera_io.cxx
+++ b/vital/io/camera_io.cxx
@@ -70,9 +70,9 @@ read_krtd_file( path_t const& file_path )
   }
 
   // Read the file
-  simple_camera* cam = new simple_camera();
+  std::shared_ptr<simple_camera> cam( new simple_camera() );
   input_stream >> *cam;
-  return camera_sptr(cam);
+  return cam;
 }
 
 
-- 
2.43.0


From c5fb0736abcc058515737133c10bfdad6ca27148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:58 +0000
Subject: [PATCH 052/107] fix: enumerate sparse matrices without rows or
 columns

---
 vital/util/enumerate_matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/util/enumerate_matrix.h b/vital/util/enumerate_matrix.h
index a159334..4928a8b 100644
--- a/vital/util/enumerate_matrix.h
+++ b/vital/util/enumerate_matrix.h
@@ -123,9 +123,9 @@ template < typename ValueT, int Options, typename IndexT >
 sparse_matrix_enumerator< ValueT, Options, IndexT >::iterator
 ::iterator(Eigen::SparseMatrix< ValueT, Options, IndexT > const& mat)
   : m_matrix(&mat), m_end(mat.outerSize()), m_outer(0),
-    m_inner(new iterator_t(mat, 0))
+    m_inner(mat.outerSize() > 0 ? new iterator_t(mat, 0) : 0)
 {
-  if (!(*(this->m_inner)))
+  if (this->m_inner && !(*(this->m_inner)))
   {
     ++(*this);
   }
-- 
2.43.0


From 2165f3a5623702999450f2cc74de1a97d09b8450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:58 +0000
Subject: [PATCH 053/107] fix: skip empty rows and columns of sparse matrices
 without recursion

---
 vital/util/enumerate_matrix.h | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/vital/util/enumerate_matrix.h b/vital/util/enumerate_matrix.h
index 4928a8b..cb68718 100644
--- a/vital/util/enumerate_matrix.h
+++ b/vital/util/enumerate_matrix.h
@@ -164,19 +164,21 @@ sparse_matrix_enumerator< ValueT, Options, IndexT >::iterator&
 sparse_matrix_enumerator< ValueT, Options, IndexT >::iterator
 ::operator++()
 {
-  if (this->m_inner && !(++(*(this->m_inner))))
+  if (this->m_inner)
   {
-    if (++this->m_outer < this->m_end)
+    ++(*(this->m_inner));
+
+    // Go on to the next row or column that is not empty
+    while (this->m_inner && !(*(this->m_inner)))
     {
-      this->m_inner.reset(new iterator_t(*(this->m_matrix), m_outer));
-      if (!(*(this->m_inner)))
+      if (++this->m_outer < this->m_end)
       {
-        return ++(*this);
+        this->m_inner.reset(new iterator_t(*(this->m_matrix), m_outer));
+      }
+      else
+      {
+        this->m_inner.reset();
       }
-    }
-    else
-    {
-      this->m_inner.reset();
     }
   }
 
-- 
2.43.0


From 2609f290b56f16e1d7c547eb6e03109b4e88f786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:58 +0000
Subject: [PATCH 054/107] fix: insert ranges of forward iterators into hash
 tables

---
 vital/kwiversys/hashtable.hxx.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/hashtable.hxx.in b/vital/kwiversys/hashtable.hxx.in
index 9a20226..e08ffc3 100644
--- a/vital/kwiversys/hashtable.hxx.in
+++ b/vital/kwiversys/hashtable.hxx.in
@@ -428,7 +428,7 @@ public:
                      std::forward_iterator_tag)
   {
     size_type __n = 0;
-    std::distance(__f, __l, __n);
+    __n = std::distance(__f, __l);
     resize(_M_num_elements + __n);
     for ( ; __n > 0; --__n, ++__f)
       insert_unique_noresize(*__f);
@@ -439,7 +439,7 @@ public:
                     std::forward_iterator_tag)
   {
     size_type __n = 0;
-    std::distance(__f, __l, __n);
+    __n = std::distance(__f, __l);
     resize(_M_num_elements + __n);
     for ( ; __n > 0; --__n, ++__f)
       insert_equal_noresize(*__f);
-- 
2.43.0


From bdf8cf19185c810cada809d67edef5130c634e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:58 +0000
Subject: [PATCH 055/107] fix: erase by a key that is part of the hash table

---
 vital/kwiversys/hashtable.hxx.in | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/hashtable.hxx.in b/vital/kwiversys/hashtable.hxx.in
index e08ffc3..99f3aa1 100644
--- a/vital/kwiversys/hashtable.hxx.in
+++ b/vital/kwiversys/hashtable.hxx.in
@@ -765,6 +765,8 @@ hashtable<_Val,_Key,_HF,_Ex,_Eq,_All>::erase(const key_type& __key)
   const size_type __n = _M_bkt_num_key(__key);
   _Node* __first = _M_buckets[__n];
   size_type __erased = 0;
+  // __key may be part of an erased element, so delete these at the end
+  _Node* __dead = 0;
 
   if (__first) {
     _Node* __cur = __first;
@@ -772,7 +774,8 @@ hashtable<_Val,_Key,_HF,_Ex,_Eq,_All>::erase(const key_type& __key)
     while (__next) {
       if (_M_equals(_M_get_key(__next->_M_val), __key)) {
         __cur->_M_next = __next->_M_next;
-        _M_delete_node(__next);
+        __next->_M_next = __dead;
+        __dead = __next;
         __next = __cur->_M_next;
         ++__erased;
         --_M_num_elements;
@@ -784,11 +787,17 @@ hashtable<_Val,_Key,_HF,_Ex,_Eq,_All>::erase(const key_type& __key)
     }
     if (_M_equals(_M_get_key(__first->_M_val), __key)) {
       _M_buckets[__n] = __first->_M_next;
-      _M_delete_node(__first);
+      __first->_M_next = __dead;
+      __dead = __first;
       ++__erased;
       --_M_num_elements;
     }
   }
+  while (__dead) {
+    _Node* __next = __dead->_M_next;
+    _M_delete_node(__dead);
+    __dead = __next;
+  }
   return __erased;
 }
 
-- 
2.43.0


From 80182cf9a2a77df66cf6a0b788b1ade8eff90f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:58 +0000
Subject: [PATCH 056/107] fix: do not read incomplete groups in base64 decoding

---
 vital/kwiversys/Base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/kwiversys/Base64.c b/vital/kwiversys/Base64.c
index 4b8ede2..d624b29 100644
--- a/vital/kwiversys/Base64.c
+++ b/vital/kwiversys/Base64.c
@@ -220,7 +220,7 @@ size_t kwsysBase64_Decode(const unsigned char *input,
   if (max_input_length)
     {
     const unsigned char *end = input + max_input_length;
-    while (ptr < end)
+    while ((end - ptr) >= 4)
       {
       int len = kwsysBase64_Decode3(ptr, optr);
       optr += len;
-- 
2.43.0


From 2c8d503a64924bec2737b44c6d5c296379ae1a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:58 +0000
Subject: [PATCH 057/107] fix: base64 end mark of four paddings decodes to
 nothing

---
 vital/kwiversys/Base64.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vital/kwiversys/Base64.c b/vital/kwiversys/Base64.c
index d624b29..2e45f11 100644
--- a/vital/kwiversys/Base64.c
+++ b/vital/kwiversys/Base64.c
@@ -177,6 +177,13 @@ int kwsysBase64_Decode3(const unsigned char *src, unsigned char *dest)
     { 
     return 0; 
     }
+
+  /* Padding in the first two characters only marks the end */
+
+  if (src[0] == '=' || src[1] == '=')
+    {
+    return 0;
+    }
   
   /* Decode the 3 bytes */
 
-- 
2.43.0


From df1fc1e2627bcba8a9618f759801a0a753b2cd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:58 +0000
Subject: [PATCH 058/107] fix: convert text after embedded zero characters in
 encodings

---
 vital/kwiversys/EncodingCXX.cxx | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/EncodingCXX.cxx b/vital/kwiversys/EncodingCXX.cxx
index 597d4bd..d76a79b 100644
--- a/vital/kwiversys/EncodingCXX.cxx
+++ b/vital/kwiversys/EncodingCXX.cxx
@@ -143,12 +143,30 @@ char const* const* Encoding::CommandLineArguments::argv() const
 
 std::wstring Encoding::ToWide(const std::string& str)
 {
-  return ToWide(str.c_str());
+  // convert the parts between embedded null characters
+  std::wstring wstr;
+  size_t pos = 0;
+  for(size_t nul; (nul = str.find('\0', pos)) != std::string::npos;
+      pos = nul + 1)
+    {
+    wstr += ToWide(str.c_str() + pos);
+    wstr += wchar_t('\0');
+    }
+  return wstr + ToWide(str.c_str() + pos);
 }
 
 std::string Encoding::ToNarrow(const std::wstring& str)
 {
-  return ToNarrow(str.c_str());
+  // convert the parts between embedded null characters
+  std::string nstr;
+  size_t pos = 0;
+  for(size_t nul; (nul = str.find(wchar_t('\0'), pos)) != std::wstring::npos;
+      pos = nul + 1)
+    {
+    nstr += ToNarrow(str.c_str() + pos);
+    nstr += '\0';
+    }
+  return nstr + ToNarrow(str.c_str() + pos);
 }
 
 std::wstring Encoding::ToWide(const char* cstr)
-- 
2.43.0


From 3adee45dbb1910c3cf2e7adb729dfb7f42a60ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:58 +0000
Subject: [PATCH 059/107] fix: ReplaceString with embedded zero characters and
 aliased arguments

---
 vital/kwiversys/SystemTools.cxx | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index da34eb9..c0594d4 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -804,36 +804,31 @@ void SystemTools::ReplaceString(std::string& source,
                                 size_t replaceSize,
                                 const std::string& with)
 {
-  const char *src = source.c_str();
-  char *searchPos = const_cast<char *>(strstr(src,replace));
+  // the result is built separately because the arguments may refer to source
+  std::string::size_type pos = 0;
+  std::string::size_type searchPos = source.find(replace, 0, replaceSize);
 
   // get out quick if string is not found
-  if (!searchPos)
+  if (searchPos == std::string::npos)
     {
     return;
     }
 
   // perform replacements until done
-  char *orig = strdup(src);
-  char *currentPos = orig;
-  searchPos = searchPos - src + orig;
-
-  // initialize the result
-  source.erase(source.begin(),source.end());
+  std::string result;
   do
     {
-    *searchPos = '\0';
-    source += currentPos;
-    currentPos = searchPos + replaceSize;
+    result.append(source, pos, searchPos - pos);
     // replace
-    source += with;
-    searchPos = strstr(currentPos,replace);
+    result += with;
+    pos = searchPos + replaceSize;
+    searchPos = source.find(replace, pos, replaceSize);
     }
-  while (searchPos);
+  while (searchPos != std::string::npos);
 
   // copy any trailing text
-  source += currentPos;
-  free(orig);
+  result.append(source, pos, std::string::npos);
+  source.swap(result);
 }
 
 #if defined(KEY_WOW64_32KEY) && defined(KEY_WOW64_64KEY)
-- 
2.43.0


From bca9c4e07d874955dfd20cffe5a62bbc75e0fd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:58 +0000
Subject: [PATCH 060/107] fix: GetLineFromStream drops characters at its buffer
 boundary

---
 vital/kwiversys/SystemTools.cxx | 58 +++++++--------------------------
 1 file changed, 12 insertions(+), 46 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index c0594d4..e5ea133 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -4643,16 +4643,9 @@ bool SystemTools::GetLineFromStream(std::istream& is,
                                     bool* has_newline /* = 0 */,
                                     long sizeLimit /* = -1 */)
 {
-  const int bufferSize = 1024;
-  char buffer[bufferSize];
-  bool haveData = false;
-  bool haveNewline = false;
-
   // Start with an empty line.
   line = "";
 
-  long leftToRead = sizeLimit;
-
   // Early short circuit return if stream is no good. Just return
   // false and the empty line. (Probably means caller tried to
   // create a file stream with a non-existent file name...)
@@ -4666,52 +4659,25 @@ bool SystemTools::GetLineFromStream(std::istream& is,
     return false;
     }
 
-  // If no characters are read from the stream, the end of file has
-  // been reached.  Clear the fail bit just before reading.
-  while(!haveNewline &&
-        leftToRead != 0 &&
-        (is.clear(is.rdstate() & ~std::ios::failbit),
-         is.getline(buffer, bufferSize), is.gcount() > 0))
-    {
-    // We have read at least one byte.
-    haveData = true;
-
-    // If newline character was read the gcount includes the character
-    // but the buffer does not: the end of line has been reached.
-    size_t length = strlen(buffer);
-    if(length < static_cast<size_t>(is.gcount()))
-      {
-      haveNewline = true;
-      }
-
-    // Avoid storing a carriage return character.
-    if(length > 0 && buffer[length-1] == '\r')
-      {
-      buffer[length-1] = 0;
-      }
+  std::getline(is, line);
+  bool haveData = !line.empty() || !is.eof();
 
-    // if we read too much then truncate the buffer
-    if (leftToRead > 0)
-      {
-      if (static_cast<long>(length) > leftToRead)
-        {
-        buffer[leftToRead-1] = 0;
-        leftToRead = 0;
-        }
-      else
-        {
-        leftToRead -= static_cast<long>(length);
-        }
-      }
+  // Avoid storing a carriage return character.
+  if(!line.empty() && line[line.size()-1] == '\r')
+    {
+    line.resize(line.size()-1);
+    }
 
-    // Append the data read to the line.
-    line.append(buffer);
+  // if we read too much then truncate the line
+  if(sizeLimit >= 0 && line.size() > static_cast<size_t>(sizeLimit))
+    {
+    line.resize(static_cast<size_t>(sizeLimit));
     }
 
   // Return the results.
   if(has_newline)
     {
-    *has_newline = haveNewline;
+    *has_newline = !is.eof();
     }
   return haveData;
 }
-- 
2.43.0


From 835dcc24fcdae73977cbc8616bbfd1442c9d750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:58 +0000
Subject: [PATCH 061/107] fix: EstimateFormatLength underestimates or misreads
 formats

---
 vital/kwiversys/SystemTools.cxx | 60 +--------------------------------
 1 file changed, 1 insertion(+), 59 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index e5ea133..11baba2 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -1867,65 +1867,7 @@ int SystemTools::EstimateFormatLength(const char *format, va_list ap)
     return 0;
     }
 
-  // Quick-hack attempt at estimating the length of the string.
-  // Should never under-estimate.
-
-  // Start with the length of the format string itself.
-
-  size_t length = strlen(format);
-
-  // Increase the length for every argument in the format.
-
-  const char* cur = format;
-  while(*cur)
-    {
-    if(*cur++ == '%')
-      {
-      // Skip "%%" since it doesn't correspond to a va_arg.
-      if(*cur != '%')
-        {
-        while(!int(isalpha(*cur)))
-          {
-          ++cur;
-          }
-        switch (*cur)
-          {
-          case 's':
-          {
-          // Check the length of the string.
-          char* s = va_arg(ap, char*);
-          if(s)
-            {
-            length += strlen(s);
-            }
-          } break;
-          case 'e':
-          case 'f':
-          case 'g':
-          {
-          // Assume the argument contributes no more than 64 characters.
-          length += 64;
-
-          // Eat the argument.
-          static_cast<void>(va_arg(ap, double));
-          } break;
-          default:
-          {
-          // Assume the argument contributes no more than 64 characters.
-          length += 64;
-
-          // Eat the argument.
-          static_cast<void>(va_arg(ap, int));
-          } break;
-          }
-        }
-
-      // Move past the characters just tested.
-      ++cur;
-      }
-    }
-
-  return static_cast<int>(length);
+  return vsnprintf(0, 0, format, ap);
 }
 
 std::string SystemTools::EscapeChars(
-- 
2.43.0


From 442baf2145f648ca5da35c69f10c253b8a8bc2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:58 +0000
Subject: [PATCH 062/107] fix: SplitProgramFromArgs does not end for a leading
 space

---
 vital/kwiversys/SystemTools.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 11baba2..94f13d2 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -4540,6 +4540,10 @@ void SystemTools::SplitProgramFromArgs(const std::string& path,
       return;
       }
     // move past the space for the next search
+    if(spacePos == 0)
+      {
+      break;
+      }
     spacePos--;
     spacePos = dir.rfind(' ', spacePos);
     }
-- 
2.43.0


From f871d58eb69b2b65ae3bd550879a9069d601134d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:58 +0000
Subject: [PATCH 063/107] fix: reject incomplete dates and misaligned months

---
 vital/kwiversys/SystemTools.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 94f13d2..9895d18 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2586,7 +2586,7 @@ long int SystemTools::CreationTime(const std::string& filename)
 
 bool SystemTools::ConvertDateMacroString(const char *str, time_t *tmt)
 {
-  if (!str || !tmt || strlen(str) > 11)
+  if (!str || !tmt || strlen(str) != 11)
     {
     return false;
     }
@@ -2609,7 +2609,7 @@ bool SystemTools::ConvertDateMacroString(const char *str, time_t *tmt)
 
   buffer[3] = 0;
   char *ptr = strstr(month_names, buffer);
-  if (!ptr)
+  if (!ptr || (ptr - month_names) % 3 != 0)
     {
     return false;
     }
@@ -2634,7 +2634,7 @@ bool SystemTools::ConvertDateMacroString(const char *str, time_t *tmt)
 
 bool SystemTools::ConvertTimeStampMacroString(const char *str, time_t *tmt)
 {
-  if (!str || !tmt || strlen(str) > 26)
+  if (!str || !tmt || strlen(str) < 24 || strlen(str) > 26)
     {
     return false;
     }
@@ -2660,7 +2660,7 @@ bool SystemTools::ConvertTimeStampMacroString(const char *str, time_t *tmt)
 
   buffer[7] = 0;
   char *ptr = strstr(month_names, buffer + 4);
-  if (!ptr)
+  if (!ptr || (ptr - month_names) % 3 != 0)
     {
     return false;
     }
-- 
2.43.0


From 2bcda178edf8ca82f673bb480adba1f35e7f9a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:17 +0000
Subject: [PATCH 064/107] fix: FindFile and FindDirectory skip entries of the
 other kind

---
 vital/kwiversys/SystemTools.cxx    | 16 ++++++++++------
 vital/kwiversys/SystemTools.hxx.in | 10 +++++-----
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 9895d18..8d7e878 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2801,7 +2801,8 @@ size_t SystemTools::GetMaximumFilePathLength()
 std::string SystemTools
 ::FindName(const std::string& name,
            const std::vector<std::string>& userPaths,
-           bool no_system_path)
+           bool no_system_path,
+           bool directory)
 {
   // Add the system search path to our path first
   std::vector<std::string> path;
@@ -2837,7 +2838,8 @@ std::string SystemTools
     {
     tryPath = *p;
     tryPath += name;
-    if(SystemTools::FileExists(tryPath))
+    if(SystemTools::FileExists(tryPath) &&
+       SystemTools::FileIsDirectory(tryPath) == directory)
       {
       return tryPath;
       }
@@ -2856,8 +2858,9 @@ std::string SystemTools
            const std::vector<std::string>& userPaths,
            bool no_system_path)
 {
-  std::string tryPath = SystemTools::FindName(name, userPaths, no_system_path);
-  if(!tryPath.empty() && !SystemTools::FileIsDirectory(tryPath))
+  std::string tryPath =
+    SystemTools::FindName(name, userPaths, no_system_path, false);
+  if(!tryPath.empty())
     {
     return SystemTools::CollapseFullPath(tryPath);
     }
@@ -2875,8 +2878,9 @@ std::string SystemTools
                 const std::vector<std::string>& userPaths,
                 bool no_system_path)
 {
-  std::string tryPath = SystemTools::FindName(name, userPaths, no_system_path);
-  if(!tryPath.empty() && SystemTools::FileIsDirectory(tryPath))
+  std::string tryPath =
+    SystemTools::FindName(name, userPaths, no_system_path, true);
+  if(!tryPath.empty())
     {
     return SystemTools::CollapseFullPath(tryPath);
     }
diff --git a/vital/kwiversys/SystemTools.hxx.in b/vital/kwiversys/SystemTools.hxx.in
index bba5a5c..64a5cc7 100644
--- a/vital/kwiversys/SystemTools.hxx.in
+++ b/vital/kwiversys/SystemTools.hxx.in
@@ -972,14 +972,14 @@ private:
   static bool FileIsFullPath(const char*, size_t);
 
   /**
-   * Find a filename (file or directory) in the system PATH, with
-   * optional extra paths.
+   * Find a filename (file or directory, as requested) in the system
+   * PATH, with extra paths.
    */
   static std::string FindName(
     const std::string& name,
-    const std::vector<std::string>& path =
-    std::vector<std::string>(),
-    bool no_system_path = false);
+    const std::vector<std::string>& path,
+    bool no_system_path,
+    bool directory);
 
 
   /**
-- 
2.43.0


From 531ca96fb7a4960061adeec6f332e69f3545ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:17 +0000
Subject: [PATCH 065/107] fix: expand the home directory when it is the root
 directory

---
 vital/kwiversys/SystemTools.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 8d7e878..599cc10 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -3929,7 +3929,7 @@ void SystemTools::SplitPath(const std::string& p,
         }
       }
 #endif
-    if(!homedir.empty() && (*homedir.rbegin() == '/' ||
+    if(homedir.size() > 1 && (*homedir.rbegin() == '/' ||
                             *homedir.rbegin() == '\\'))
       {
       homedir.resize(homedir.size() - 1);
-- 
2.43.0


From 6eba94b05a62341eaccc9020cbb4f8301a38c5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:17 +0000
Subject: [PATCH 066/107] fix: LocateFileInDir finds files in the parent of a
 tried directory

---
 vital/kwiversys/SystemTools.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 599cc10..372fbfd 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -4384,9 +4384,13 @@ bool SystemTools::LocateFileInDir(const char *filename,
           temp += "/";
           }
         temp += filename_dir_bases;
+        temp += filename_base;
 
-        res = SystemTools::LocateFileInDir(
-          filename_base.c_str(), temp.c_str(), filename_found, 0);
+        if (SystemTools::FileExists(temp))
+          {
+          res = true;
+          filename_found = temp;
+          }
 
         } while (!res && !filename_dir_base.empty());
       }
-- 
2.43.0


From 23143704fa3c923c4e1554a00781186f6c586765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:17 +0000
Subject: [PATCH 067/107] fix: IsSubDirectory of the root directory

---
 vital/kwiversys/SystemTools.cxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 372fbfd..ae6988d 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -4781,7 +4781,13 @@ bool SystemTools::IsSubDirectory(const std::string& cSubdir, const std::string&
   std::string dir = cDir;
   SystemTools::ConvertToUnixSlashes(subdir);
   SystemTools::ConvertToUnixSlashes(dir);
-  if(subdir.size() > dir.size() && subdir[dir.size()] == '/')
+  if(dir.empty())
+    {
+    return false;
+    }
+  // The root directory already ends with its slash.
+  size_t const slash = *dir.rbegin() == '/' ? dir.size() - 1 : dir.size();
+  if(subdir.size() > dir.size() && subdir[slash] == '/')
     {
     std::string s = subdir.substr(0, dir.size());
     return SystemTools::ComparePath(s, dir);
-- 
2.43.0


From d96844ec79cbc1b9930d887e6c3148e5e9f85dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:01 +0000
Subject: [PATCH 068/107] fix: options with lists of values match exactly

---
 vital/kwiversys/CommandLineArguments.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index 3636836..2d0a97b 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -163,7 +163,8 @@ bool CommandLineArguments::GetMatchedArguments(
     const CommandLineArguments::Internal::String& parg = it->first;
     CommandLineArgumentsCallbackStructure *cs = &it->second;
     if (cs->ArgumentType == CommandLineArguments::NO_ARGUMENT ||
-      cs->ArgumentType == CommandLineArguments::SPACE_ARGUMENT) 
+      cs->ArgumentType == CommandLineArguments::SPACE_ARGUMENT ||
+      cs->ArgumentType == CommandLineArguments::MULTI_ARGUMENT)
       {
       if ( arg == parg )
         {
-- 
2.43.0


From 7c80833fc5d5786d6d45072187a451a956dda9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:01 +0000
Subject: [PATCH 069/107] fix: values of options are not remaining arguments

---
 vital/kwiversys/CommandLineArguments.cxx | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index 2d0a97b..2b47b63 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -240,6 +240,7 @@ int CommandLineArguments::Parse()
           return 0;
           }
         cc ++;
+        this->Internals->LastArgument = cc;
         break;
       case EQUAL_ARGUMENT:
         if ( arg.size() == sarg.size() || arg.at(sarg.size()) != '=' )
@@ -278,12 +279,9 @@ int CommandLineArguments::Parse()
             return 0;
             }
           }
-        if ( cc != this->Internals->Argv.size() )
-          {
-          CommandLineArguments_DEBUG("Again End of multi argument " << arg);
-          cc--;
-          continue;
-          }
+        CommandLineArguments_DEBUG("Again End of multi argument " << arg);
+        cc--;
+        this->Internals->LastArgument = cc;
         break;
       default:
         std::cerr << "Got unknown argument type: \"" << cs->ArgumentType << "\"" << std::endl;
-- 
2.43.0


From 8b7e9c6327f02c8c216d39b2b47bd3784c6e7ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:01 +0000
Subject: [PATCH 070/107] fix: long option names overflow buffers of the help
 text

---
 vital/kwiversys/CommandLineArguments.cxx | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index 2b47b63..e6bce06 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -586,9 +586,7 @@ void CommandLineArguments::GenerateHelp()
       }
     }
 
-  // Create format for that string
-  char format[80];
-  sprintf(format, "  %%-%us  ", static_cast<unsigned int>(maxlen));
+  CommandLineArguments::Internal::String::size_type const width = maxlen;
 
   maxlen += 4; // For the space before and after the option
 
@@ -601,19 +599,20 @@ void CommandLineArguments::GenerateHelp()
     for ( sit = mpit->second.begin(); sit != mpit->second.end(); sit++ )
       {
       str << std::endl;
-      char argument[100];
-      sprintf(argument, "%s", sit->c_str());
+      std::string argument = *sit;
       switch ( this->Internals->Callbacks[*sit].ArgumentType )
         {
         case CommandLineArguments::NO_ARGUMENT: break;
-        case CommandLineArguments::CONCAT_ARGUMENT: strcat(argument, "opt"); break;
-        case CommandLineArguments::SPACE_ARGUMENT:  strcat(argument, " opt"); break;
-        case CommandLineArguments::EQUAL_ARGUMENT:  strcat(argument, "=opt"); break;
-        case CommandLineArguments::MULTI_ARGUMENT:  strcat(argument, " opt opt ..."); break;
+        case CommandLineArguments::CONCAT_ARGUMENT: argument += "opt"; break;
+        case CommandLineArguments::SPACE_ARGUMENT:  argument += " opt"; break;
+        case CommandLineArguments::EQUAL_ARGUMENT:  argument += "=opt"; break;
+        case CommandLineArguments::MULTI_ARGUMENT:  argument += " opt opt ..."; break;
         }
-      char buffer[80];
-      sprintf(buffer, format, argument);
-      str << buffer;
+      if ( argument.size() < width )
+        {
+        argument.append(width - argument.size(), ' ');
+        }
+      str << "  " << argument << "  ";
       }
     const char* ptr = this->Internals->Callbacks[mpit->first].Help;
     size_t len = strlen(ptr);
-- 
2.43.0


From 06d653064e943e6488d142a70aac2f53b9604562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:01 +0000
Subject: [PATCH 071/107] fix: wrapping the help text of options reads past its
 end

---
 vital/kwiversys/CommandLineArguments.cxx | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index e6bce06..f2162ca 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -622,13 +622,10 @@ void CommandLineArguments::GenerateHelp()
       // If argument with help is longer than line length, split it on previous
       // space (or tab) and continue on the next line
       CommandLineArguments::Internal::String::size_type cc;
-      for ( cc = 0; ptr[cc]; cc ++ )
+      while ( *ptr == ' ' || *ptr == '\t' )
         {
-        if ( *ptr == ' ' || *ptr == '\t' )
-          {
-          ptr ++;
-          len --;
-          }
+        ptr ++;
+        len --;
         }
       if ( cnt > 0 )
         {
@@ -638,7 +635,7 @@ void CommandLineArguments::GenerateHelp()
           }
         }
       CommandLineArguments::Internal::String::size_type skip = len;
-      if ( skip > this->LineLength - maxlen )
+      if ( this->LineLength > maxlen && skip > this->LineLength - maxlen )
         {
         skip = this->LineLength - maxlen;
         for ( cc = skip-1; cc > 0; cc -- )
-- 
2.43.0


From aa988efba6b7fde1899da881434e51d9f51070a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:49 +0000
Subject: [PATCH 072/107] fix: restore the signal handlers of SIGINT and
 SIGTERM

---
 vital/kwiversys/ProcessUNIX.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 6d9b109..07eb61a 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -2883,7 +2883,7 @@ static int kwsysProcessesAdd(kwsysProcess* cp)
     sigemptyset(&newSigAction.sa_mask);
     sigaddset(&newSigAction.sa_mask, SIGINT);
     while((sigaction(SIGTERM, &newSigAction,
-                     &kwsysProcessesOldSigIntAction) < 0) &&
+                     &kwsysProcessesOldSigTermAction) < 0) &&
           (errno == EINTR));
     }
   }
-- 
2.43.0


From e815a4bc9950d28e6558f5fb331bb1dd20701e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:49 +0000
Subject: [PATCH 073/107] fix: a failing fork signals every process

---
 vital/kwiversys/ProcessUNIX.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 07eb61a..676b83c 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -1889,6 +1889,8 @@ static int kwsysProcessCreate(kwsysProcess* cp, int prIndex,
 #endif
   if(cp->ForkPIDs[prIndex] < 0)
     {
+    /* There is no child to kill or wait for.  */
+    cp->ForkPIDs[prIndex] = 0;
     sigprocmask(SIG_SETMASK, &old_mask, 0);
     kwsysProcessCleanupDescriptor(&si->ErrorPipe[0]);
     kwsysProcessCleanupDescriptor(&si->ErrorPipe[1]);
-- 
2.43.0


From dd52017ad9efc7a74e06a2e2de5cc5f94d103d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:49 +0000
Subject: [PATCH 074/107] fix: pid of a detached child mixed up with its error
 message

---
 vital/kwiversys/ProcessUNIX.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 676b83c..8a3f8b9 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -2547,14 +2547,22 @@ static pid_t kwsysProcessFork(kwsysProcess* cp,
       pid_t child_pid = fork();
       if(child_pid == 0)
         {
-        /* This is the real child process.  There is nothing to do here.  */
+        /* This is the real child process.  Use the error pipe to report
+           its pid to the real parent before anything else is written
+           to the pipe.  */
+        child_pid = getpid();
+        while((write(si->ErrorPipe[1], &child_pid, sizeof(child_pid)) < 0) &&
+              (errno == EINTR));
         return 0;
         }
       else
         {
-        /* Use the error pipe to report the pid to the real parent.  */
-        while((write(si->ErrorPipe[1], &child_pid, sizeof(child_pid)) < 0) &&
-              (errno == EINTR));
+        /* Use the error pipe to report a failure to the real parent.  */
+        if(child_pid < 0)
+          {
+          while((write(si->ErrorPipe[1], &child_pid, sizeof(child_pid)) < 0) &&
+                (errno == EINTR));
+          }
 
         /* Exit without cleanup.  The parent holds all resources.  */
         kwsysProcessExit();
@@ -2564,8 +2572,8 @@ static pid_t kwsysProcessFork(kwsysProcess* cp,
     else
       {
       /* This is the original parent process.  The intermediate
-         process will use the error pipe to report the pid of the
-         detached child.  */
+         process or the detached child itself will use the error pipe
+         to report the pid of the detached child.  */
       pid_t child_pid;
       int status;
       while((read(si->ErrorPipe[0], &child_pid, sizeof(child_pid)) < 0) &&
-- 
2.43.0


From 415b201bcce6d2c93773b7b9a170382bbaeb439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:49 +0000
Subject: [PATCH 075/107] fix: terminate the error message of a child that
 cannot start

---
 vital/kwiversys/ProcessUNIX.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 8a3f8b9..edd11b2 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -2017,6 +2017,7 @@ static int kwsysProcessCreate(kwsysProcess* cp, int prIndex,
   if(total > 0)
     {
     /* The child failed to execute the process.  */
+    cp->ErrorMessage[total] = 0;
     return 0;
     }
   }
-- 
2.43.0


From 62c3c81d5ca97eb33fd41c89c6ae50f4143337a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:49 +0000
Subject: [PATCH 076/107] fix: an interrupted read fails the start of a child

---
 vital/kwiversys/ProcessUNIX.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index edd11b2..e8d2c7e 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -1973,7 +1973,8 @@ static int kwsysProcessCreate(kwsysProcess* cp, int prIndex,
   /* Make sure the child is in the process group before we proceed.  This
      avoids race conditions with calls to the kill function that we make for
      signalling process groups.  */
-  while((readRes = read(pgidPipe[0], &tmp, 1)) > 0);
+  while((readRes = read(pgidPipe[0], &tmp, 1)) > 0 ||
+        (readRes < 0 && errno == EINTR));
   if(readRes < 0)
     {
     sigprocmask(SIG_SETMASK, &old_mask, 0);
-- 
2.43.0


From e2c34ccdac93fa17b1fdeab8d5124a2843465e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:49 +0000
Subject: [PATCH 077/107] fix: merged output of a pipeline whose stdout is
 shared

---
 vital/kwiversys/ProcessUNIX.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index e8d2c7e..15b9218 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -1919,11 +1919,16 @@ static int kwsysProcessCreate(kwsysProcess* cp, int prIndex,
       {
       close(0);
       }
+    if(si->StdErr == 1)
+      {
+      /* Duplicate the shared stdout before it is replaced below.  */
+      dup2(1, 2);
+      }
     if(si->StdOut != 1)
       {
       dup2(si->StdOut, 1);
       }
-    if(si->StdErr != 2)
+    if(si->StdErr != 1 && si->StdErr != 2)
       {
       dup2(si->StdErr, 2);
       }
-- 
2.43.0


From 99ace32bf238da25a75009e4f5b0f51453d533cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:49 +0000
Subject: [PATCH 078/107] fix: descriptor leak when redirecting output fails

---
 vital/kwiversys/ProcessUNIX.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 15b9218..5802e0a 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -2107,6 +2107,7 @@ static int kwsysProcessSetupOutputPipeFile(int* p, const char* name)
   /* Set close-on-exec flag on the pipe's end.  */
   if(fcntl(fout, F_SETFD, FD_CLOEXEC) < 0)
     {
+    close(fout);
     return 0;
     }
 
-- 
2.43.0


From a94b552228da8d0919bf8fa379475ec26a76beb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:49 +0000
Subject: [PATCH 079/107] fix: process object stays registered when its options
 change

---
 vital/kwiversys/ProcessUNIX.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 5802e0a..59b5444 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -1733,13 +1733,10 @@ static void kwsysProcessCleanup(kwsysProcess* cp, int error)
       }
     }
 
-  /* If not creating a detached child, remove this object from the
-     global set of process objects that wish to be notified when a
-     child exits.  */
-  if(!cp->OptionDetach)
-    {
-    kwsysProcessesRemove(cp);
-    }
+  /* Remove this object from the global set of process objects that wish
+     to be notified when a child exits, if it was added.  Do not look at
+     OptionDetach since it may have changed since the child was created.  */
+  kwsysProcessesRemove(cp);
 
   /* Free memory.  */
   if(cp->ForkPIDs)
-- 
2.43.0


From d28e862590ff31661dd584a8a41569bc63a6701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:27 +0000
Subject: [PATCH 080/107] fix: MakeDirectory reports success where a file or
 dangling link is in the way

---
 vital/kwiversys/SystemTools.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index ae6988d..a268fad 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -766,6 +766,8 @@ bool SystemTools::MakeDirectory(const std::string& path)
       {
       return false;
       }
+    // What is there already need not be a directory.
+    return SystemTools::FileIsDirectory(topdir);
     }
   return true;
 }
-- 
2.43.0


From 2c0a8ede5530d9ef64984bba0546e75f8461b098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:27 +0000
Subject: [PATCH 081/107] fix: Touch ignores files that cannot be read

---
 vital/kwiversys/SystemTools.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index a268fad..6d4d59c 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -1313,7 +1313,7 @@ bool SystemTools::PathCygwinToWin32(const char *path, char *win32_path)
 
 bool SystemTools::Touch(const std::string& filename, bool create)
 {
-  if (!SystemTools::FileExists(filename))
+  if (!SystemTools::TestFileAccess(filename, TEST_FILE_OK))
     {
     if(create)
       {
-- 
2.43.0


From 47b3a16d5399d841cb2e9e58af0a8bcdbe48ee9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:27 +0000
Subject: [PATCH 082/107] fix: copying a directory onto a file reports success

---
 vital/kwiversys/SystemTools.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 6d4d59c..7ab1972 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2330,7 +2330,10 @@ bool SystemTools::CopyFileAlways(const std::string& source, const std::string& d
 
   if(SystemTools::FileIsDirectory(source))
     {
-    SystemTools::MakeDirectory(destination);
+    if(!SystemTools::MakeDirectory(destination))
+      {
+      return false;
+      }
     }
   else
     {
-- 
2.43.0


From 9699787be9112394ca9aac74571fd0be6d96f4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:27 +0000
Subject: [PATCH 083/107] fix: copying a file into its own directory rewrites
 and can destroy it

---
 vital/kwiversys/SystemTools.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 7ab1972..69994c9 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2358,6 +2358,12 @@ bool SystemTools::CopyFileAlways(const std::string& source, const std::string& d
       destination_dir = SystemTools::GetFilenamePath(destination);
       }
 
+    // If files are the same do not copy
+    if ( SystemTools::SameFile(source, real_destination) )
+      {
+      return true;
+      }
+
     // Create destination directory
 
     SystemTools::MakeDirectory(destination_dir);
-- 
2.43.0


From 0f9d6f134ee6d4b75e7f462a5b4ad987c264be13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:27 +0000
Subject: [PATCH 084/107] fix: copying a file reports success when reading
 fails

---
 vital/kwiversys/SystemTools.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 69994c9..570c69c 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2424,10 +2424,13 @@ bool SystemTools::CopyFileAlways(const std::string& source, const std::string& d
     // the check below.
     fout.flush();
 
+    // The end of the data must be the end of the file, not an error.
+    bool read_error = fin.bad();
+
     fin.close();
     fout.close();
 
-    if(!fout)
+    if(!fout || read_error)
       {
       return false;
       }
-- 
2.43.0


From dbd82e6969070859fc8936e43f1fbb3d0cb92a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:27 +0000
Subject: [PATCH 085/107] fix: copying a directory that cannot be listed
 reports success

---
 vital/kwiversys/SystemTools.cxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 570c69c..1cf825a 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2468,11 +2468,14 @@ bool SystemTools::CopyADirectory(const std::string& source, const std::string& d
 {
   Directory dir;
 #ifdef _WIN32
-  dir.Load(Encoding::ToNarrow(
-             SystemTools::ConvertToWindowsExtendedPath(source)));
+  if ( !dir.Load(Encoding::ToNarrow(
+                   SystemTools::ConvertToWindowsExtendedPath(source))) )
 #else
-  dir.Load(source);
+  if ( !dir.Load(source) )
 #endif
+    {
+    return false;
+    }
   size_t fileNum;
   if ( !SystemTools::MakeDirectory(destination) )
     {
-- 
2.43.0


From dff89ea592c8d527f7e22e1c8ce085e911bba178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:27 +0000
Subject: [PATCH 086/107] fix: RemoveADirectory empties the directory behind a
 symbolic link

---
 vital/kwiversys/SystemTools.cxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 1cf825a..1cd0db6 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2753,6 +2753,16 @@ bool SystemTools::RemoveFile(const std::string& source)
 
 bool SystemTools::RemoveADirectory(const std::string& source)
 {
+#if !defined(_WIN32) || defined(__CYGWIN__)
+  // Do not touch the content of a directory behind a symbolic link, nor
+  // anything that is no directory.
+  if(!SystemTools::FileIsDirectory(source) ||
+     SystemTools::FileIsSymlink(source))
+    {
+    return Rmdir(source) == 0;
+    }
+#endif
+
   // Add write permission to the directory so we can modify its
   // content to remove files and directories from it.
   mode_t mode;
-- 
2.43.0


From 87cee57f4e9ee91759a75cfb554747b2323c652f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:27 +0000
Subject: [PATCH 087/107] fix: DetectFileType against its documentation

---
 vital/kwiversys/SystemTools.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 1cd0db6..3e77c72 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -4301,7 +4301,7 @@ SystemTools::DetectFileType(const char *filename,
 
   while (ptr != buffer_end)
     {
-    if ((*ptr >= 0x20 && *ptr <= 0x7F) ||
+    if ((*ptr >= 0x20 && *ptr <= 0x7E) ||
         *ptr == '\n' ||
         *ptr == '\r' ||
         *ptr == '\t')
@@ -4317,7 +4317,7 @@ SystemTools::DetectFileType(const char *filename,
     (static_cast<double>(read_length - text_count) /
      static_cast<double>(read_length));
 
-  if (current_percent_bin >= percent_bin)
+  if (current_percent_bin > percent_bin)
     {
     return SystemTools::FileTypeBinary;
     }
-- 
2.43.0


From b7e6072a9222e89876c21578f2589bb9a999b047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:54 +0000
Subject: [PATCH 088/107] fix: /proc/cpuinfo is read up to its end

---
 vital/kwiversys/SystemInformation.cxx | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/vital/kwiversys/SystemInformation.cxx b/vital/kwiversys/SystemInformation.cxx
index 703e45f..1e40c09 100644
--- a/vital/kwiversys/SystemInformation.cxx
+++ b/vital/kwiversys/SystemInformation.cxx
@@ -3186,14 +3186,12 @@ bool SystemInformationImplementation::RetreiveInformationFromCpuInfoFile()
     return false;
     }
 
-  size_t fileSize = 0;
-  while(!feof(fd))
+  int c;
+  while((c = fgetc(fd)) != EOF)
     {
-    buffer += static_cast<char>(fgetc(fd));
-    fileSize++;
+    buffer += static_cast<char>(c);
     }
   fclose( fd );
-  buffer.resize(fileSize-2);
   // Number of logical CPUs (combination of multiple processors, multi-core
   // and hyperthreading)
   size_t pos = buffer.find("processor\t");
-- 
2.43.0


From 27b862c7418e8b1ce557a3c0ac5a4ca342b8c71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:54 +0000
Subject: [PATCH 089/107] fix: a cpuinfo key without a value takes the rest of
 the file

---
 vital/kwiversys/SystemInformation.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/SystemInformation.cxx b/vital/kwiversys/SystemInformation.cxx
index 1e40c09..6b41fec 100644
--- a/vital/kwiversys/SystemInformation.cxx
+++ b/vital/kwiversys/SystemInformation.cxx
@@ -3165,7 +3165,8 @@ std::string SystemInformationImplementation::ExtractValueFromCpuInfoFile(std::st
           return this->ExtractValueFromCpuInfoFile(buffer, word, pos2);
           }
         }
-      return buffer.substr(pos+2,pos2-pos-2);
+      // a key may be without a value
+      return (pos2 - pos > 2) ? buffer.substr(pos+2,pos2-pos-2) : std::string();
       }
     }
   this->CurrentPositionInFile = buffer.npos;
-- 
2.43.0


From d6a495e791e530fc2a986b360e209dd605b250aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:54 +0000
Subject: [PATCH 090/107] fix: number of physical processors on one socket and
 with gaps in the ids

---
 vital/kwiversys/SystemInformation.cxx | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/vital/kwiversys/SystemInformation.cxx b/vital/kwiversys/SystemInformation.cxx
index 6b41fec..aba0787 100644
--- a/vital/kwiversys/SystemInformation.cxx
+++ b/vital/kwiversys/SystemInformation.cxx
@@ -52,6 +52,7 @@
 #include <iostream>
 #include <sstream>
 #include <fstream>
+#include <set>
 #include <string>
 #include <vector>
 
@@ -3203,17 +3204,13 @@ bool SystemInformationImplementation::RetreiveInformationFromCpuInfoFile()
     }
 
 #ifdef __linux
-  // Find the largest physical id.
-  int maxId = -1;
+  // Collect the distinct physical ids, which need not be contiguous.
+  std::set<int> physicalIds;
   std::string idc =
                        this->ExtractValueFromCpuInfoFile(buffer,"physical id");
   while(this->CurrentPositionInFile != buffer.npos)
     {
-      int id = atoi(idc.c_str());
-      if(id > maxId)
-      {
-       maxId=id;
-      }
+    physicalIds.insert(atoi(idc.c_str()));
     idc = this->ExtractValueFromCpuInfoFile(buffer,"physical id",
                                             this->CurrentPositionInFile+1);
     }
@@ -3223,10 +3220,10 @@ bool SystemInformationImplementation::RetreiveInformationFromCpuInfoFile()
   std::string cores =
                         this->ExtractValueFromCpuInfoFile(buffer,"cpu cores");
   int numberOfCoresPerCPU=atoi(cores.c_str());
-  if (maxId > 0)
+  if (!physicalIds.empty())
     {
     this->NumberOfPhysicalCPU=static_cast<unsigned int>(
-      numberOfCoresPerCPU*(maxId+1));
+      numberOfCoresPerCPU*physicalIds.size());
     }
   else
     {
-- 
2.43.0


From 778834a41cae9dfb944d05bcdd77d0ed9357b62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:54 +0000
Subject: [PATCH 091/107] fix: processor flags are read without a stepping
 entry

---
 vital/kwiversys/SystemInformation.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/kwiversys/SystemInformation.cxx b/vital/kwiversys/SystemInformation.cxx
index aba0787..9c75e3c 100644
--- a/vital/kwiversys/SystemInformation.cxx
+++ b/vital/kwiversys/SystemInformation.cxx
@@ -3342,7 +3342,7 @@ bool SystemInformationImplementation::RetreiveInformationFromCpuInfoFile()
 
   // processor feature flags (probably x86 specific)
   std::string cpuflags = this->ExtractValueFromCpuInfoFile(buffer,"flags");
-  if(!cpurev.empty())
+  if(!cpuflags.empty())
     {
     // now we can match every flags as space + flag + space
     cpuflags = " " + cpuflags + " ";
-- 
2.43.0


From b3952b92f1998145d6a4dfee65b05b91fd7792a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:54 +0000
Subject: [PATCH 092/107] fix: kernel releases with numbers of more than one
 digit

---
 vital/kwiversys/SystemInformation.cxx | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/vital/kwiversys/SystemInformation.cxx b/vital/kwiversys/SystemInformation.cxx
index 9c75e3c..1951f81 100644
--- a/vital/kwiversys/SystemInformation.cxx
+++ b/vital/kwiversys/SystemInformation.cxx
@@ -3892,17 +3892,11 @@ bool SystemInformationImplementation::QueryLinuxMemory()
   if( strlen(unameInfo.release)>=3 )
     {
     // release looks like "2.6.3-15mdk-i686-up-4GB"
-    char majorChar=unameInfo.release[0];
-    char minorChar=unameInfo.release[2];
-
-    if( isdigit(majorChar) )
-      {
-      linuxMajor=majorChar-'0';
-      }
-
-    if( isdigit(minorChar) )
+    // the numbers may have more than one digit
+    if( sscanf(unameInfo.release, "%d.%d", &linuxMajor, &linuxMinor) < 1 )
       {
-      linuxMinor=minorChar-'0';
+      linuxMajor=0;
+      linuxMinor=0;
       }
     }
 
-- 
2.43.0


From acf36a81617369ae5f2f8a8fa7575d77ad41a874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:54 +0000
Subject: [PATCH 093/107] fix: freed buffer freed again for long symbol names

---
 vital/kwiversys/SystemInformation.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vital/kwiversys/SystemInformation.cxx b/vital/kwiversys/SystemInformation.cxx
index 1951f81..b3e038e 100644
--- a/vital/kwiversys/SystemInformation.cxx
+++ b/vital/kwiversys/SystemInformation.cxx
@@ -1472,6 +1472,8 @@ std::string SymbolProperties::Demangle(const char *symbol) const
   if (!status)
     {
     result = demangledSymbol;
+    // the buffer may have been reallocated for a long name
+    buffer = demangledSymbol;
     }
   free(buffer);
 #else
-- 
2.43.0


From e87578ac72aa540d15f4fd05c574c4005cb0f9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:54 +0000
Subject: [PATCH 094/107] fix: write past the buffer for a long program path

---
 vital/kwiversys/SystemInformation.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/kwiversys/SystemInformation.cxx b/vital/kwiversys/SystemInformation.cxx
index b3e038e..9bc9f46 100644
--- a/vital/kwiversys/SystemInformation.cxx
+++ b/vital/kwiversys/SystemInformation.cxx
@@ -1444,7 +1444,7 @@ std::string SymbolProperties::GetBinary() const
     std::string binary;
     char buf[1024]={'\0'};
     ssize_t ll=0;
-    if ((ll=readlink("/proc/self/exe",buf,1024))>0)
+    if ((ll=readlink("/proc/self/exe",buf,1023))>0)
       {
       buf[ll]='\0';
       binary=buf;
-- 
2.43.0


From 3a87263ca8f11660b78b83b93532c96d3c676cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:54 +0000
Subject: [PATCH 095/107] fix: module path terminates the wrong string

---
 vital/util/get_paths.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/util/get_paths.cxx b/vital/util/get_paths.cxx
index 70d44f9..77e8cd0 100644
--- a/vital/util/get_paths.cxx
+++ b/vital/util/get_paths.cxx
@@ -79,7 +79,7 @@ get_module_path()
     char ppath[4096];
     int length(0);
     wai_getModulePath( ppath, sizeof ppath, &length );
-    path[length] = '\0';
+    ppath[length] = '\0';
 
     // convert to string
     path = ppath;
-- 
2.43.0


From 66f724ae016b68a784156abd468ca6a0ead6d7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:54 +0000
Subject: [PATCH 096/107] fix: module path with blanks is cut

---
 vital/util/whereami.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/util/whereami.c b/vital/util/whereami.c
index 01b03cd..efefd4f 100644
--- a/vital/util/whereami.c
+++ b/vital/util/whereami.c
@@ -250,7 +250,7 @@ int WAI_PREFIX(getModulePath)(char* out, int capacity, int* dirname_length)
         break;
       }
 
-      if (sscanf(buffer, "%" PRIx64 "-%" PRIx64 " %s %" PRIx64 " %x:%x %u %s\n",
+      if (sscanf(buffer, "%" PRIx64 "-%" PRIx64 " %s %" PRIx64 " %x:%x %u %[^\n]\n",
                  &low, &high, perms, &offset, &major, &minor, &inode, path) == 8)
       {
         uint64_t addr = (uint64_t)(uintptr_t) __builtin_extract_return_addr(__builtin_return_address(0));
-- 
2.43.0


From 9e4623128c6a2aaed5c1b25569929a57cba4e80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:54 +0000
Subject: [PATCH 097/107] fix: wall timer is never available

---
 vital/util/wall_timer.h.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/util/wall_timer.h.in b/vital/util/wall_timer.h.in
index 7dc3c6c..3fbb026 100644
--- a/vital/util/wall_timer.h.in
+++ b/vital/util/wall_timer.h.in
@@ -38,7 +38,7 @@
 
 #include <vital/util/timer.h>
 
-#if VITAL_USE_CHRONO
+#if VITAL_USE_STD_CHRONO
 
 #include <string>
 #include <chrono>
-- 
2.43.0


From 5e86ddf719bb62999d9d3981940a6b590a806cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:53 +0000
Subject: [PATCH 098/107] fix: byte order mark test leaves the stream failed

---
 vital/kwiversys/FStream.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vital/kwiversys/FStream.cxx b/vital/kwiversys/FStream.cxx
index 018652c..583b2f5 100644
--- a/vital/kwiversys/FStream.cxx
+++ b/vital/kwiversys/FStream.cxx
@@ -34,6 +34,7 @@ BOM ReadBOM(std::istream& in)
   in.read(reinterpret_cast<char*>(bom), 2);
   if(!in.good())
     {
+    in.clear();
     in.seekg(orig);
     return BOM_None;
     }
@@ -65,9 +66,11 @@ BOM ReadBOM(std::istream& in)
       {
       return BOM_UTF32LE;
       }
+    in.clear();
     in.seekg(p);
     return BOM_UTF16LE;
     }
+  in.clear();
   in.seekg(orig);
   return BOM_None;
 }
-- 
2.43.0


From 889470f845b2b378347ab683daacb46b54cecfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:53 +0000
Subject: [PATCH 099/107] fix: option --config of plugin_explorer has no effect

---
 vital/tools/plugin_explorer.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/tools/plugin_explorer.cxx b/vital/tools/plugin_explorer.cxx
index 129870c..9e84af2 100644
--- a/vital/tools/plugin_explorer.cxx
+++ b/vital/tools/plugin_explorer.cxx
@@ -197,7 +197,7 @@ main( int argc, char* argv[] )
   }
 
   // currently this is the same as --config option
-  if ( opt_detail )
+  if ( opt_detail || opt_config )
   {
     detailed_algo();
   }
-- 
2.43.0


From 62c29b809575db11f6b663a9d9b56e8c7030dbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:53 +0000
Subject: [PATCH 100/107] fix: documented unit of the memory symbols

---
 vital/config/doc/config_file_format.md.dox | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vital/config/doc/config_file_format.md.dox b/vital/config/doc/config_file_format.md.dox
index bd4e05b..2dc7f3a 100644
--- a/vital/config/doc/config_file_format.md.dox
+++ b/vital/config/doc/config_file_format.md.dox
@@ -157,10 +157,10 @@ This macro provider supports the following symbols derived from the current host
 
 - cwd - current working directory
 - numproc - number of processors in the current system
-- totalvirtualmemory - number of KB of total virtual memory
-- availablevirtualmemory - number of KB of available virtual memory
-- totalphysicalmemory - number of KB of total physical memory
-- availablephysicalmemory - number of KB of physical virtual memory
+- totalvirtualmemory - number of MB of total virtual memory
+- availablevirtualmemory - number of MB of available virtual memory
+- totalphysicalmemory - number of MB of total physical memory
+- availablephysicalmemory - number of MB of physical virtual memory
 - hostname - name of the host computer
 - domainname - name of the conputer in the domain
 - osname - name of the host operating system
-- 
2.43.0


From 0459d3487aa2a71b0159ce81ac375ba639169b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:53 +0000
Subject: [PATCH 101/107] fix: empty LD_LIBRARY_PATH adds the current directory

---
 vital/kwiversys/SharedForward.h.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/kwiversys/SharedForward.h.in b/vital/kwiversys/SharedForward.h.in
index f22fa58..798379e 100644
--- a/vital/kwiversys/SharedForward.h.in
+++ b/vital/kwiversys/SharedForward.h.in
@@ -840,7 +840,7 @@ static int @KWSYS_NAMESPACE@_shared_forward_to_real(int argc, char** argv_in)
       {
       /* Append the old runtime search path.  */
       const char* old_ldpath = getenv(KWSYS_SHARED_FORWARD_LDPATH);
-      if(old_ldpath)
+      if(old_ldpath && *old_ldpath)
         {
         strcat(kwsys_shared_forward_ldpath, kwsys_shared_forward_path_sep);
         strcat(kwsys_shared_forward_ldpath, old_ldpath);
-- 
2.43.0


From bd457b2c7a14d3af67ba9af6d878914d41196bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:53 +0000
Subject: [PATCH 102/107] fix: long LD_LIBRARY_PATH overflows the buffer

---
 vital/kwiversys/SharedForward.h.in | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/vital/kwiversys/SharedForward.h.in b/vital/kwiversys/SharedForward.h.in
index 798379e..0efaba1 100644
--- a/vital/kwiversys/SharedForward.h.in
+++ b/vital/kwiversys/SharedForward.h.in
@@ -840,14 +840,25 @@ static int @KWSYS_NAMESPACE@_shared_forward_to_real(int argc, char** argv_in)
       {
       /* Append the old runtime search path.  */
       const char* old_ldpath = getenv(KWSYS_SHARED_FORWARD_LDPATH);
+      char* ldpath = kwsys_shared_forward_ldpath;
       if(old_ldpath && *old_ldpath)
         {
-        strcat(kwsys_shared_forward_ldpath, kwsys_shared_forward_path_sep);
-        strcat(kwsys_shared_forward_ldpath, old_ldpath);
+        /* The old path may have any length.  This storage becomes part
+           of the environment, so it is never released.  */
+        ldpath = (char*)malloc(strlen(kwsys_shared_forward_ldpath) + 1 +
+                               strlen(old_ldpath) + 1);
+        if(!ldpath)
+          {
+          fprintf(stderr, "Out of memory.\n");
+          return 1;
+          }
+        strcpy(ldpath, kwsys_shared_forward_ldpath);
+        strcat(ldpath, kwsys_shared_forward_path_sep);
+        strcat(ldpath, old_ldpath);
         }
 
       /* Store the environment variable.  */
-      putenv(kwsys_shared_forward_ldpath);
+      putenv(ldpath);
 
 #if defined(KWSYS_SHARED_FORWARD_OPTION_COMMAND)
       /* Look for the command line replacement option.  */
@@ -874,7 +885,7 @@ static int @KWSYS_NAMESPACE@_shared_forward_to_real(int argc, char** argv_in)
       /* Look for the print command line option.  */
       if(argc > 1 && strcmp(argv[1], KWSYS_SHARED_FORWARD_OPTION_PRINT) == 0)
         {
-        fprintf(stdout, "%s\n", kwsys_shared_forward_ldpath);
+        fprintf(stdout, "%s\n", ldpath);
         fprintf(stdout, "%s\n", exe);
         return 0;
         }
-- 
2.43.0


From af67cf9c5540e8e1a7c36213b18efa7289c5340e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:53 +0000
Subject: [PATCH 103/107] fix: long program names overflow the buffers

---
 vital/kwiversys/SharedForward.h.in | 47 +++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/vital/kwiversys/SharedForward.h.in b/vital/kwiversys/SharedForward.h.in
index 0efaba1..b4648a3 100644
--- a/vital/kwiversys/SharedForward.h.in
+++ b/vital/kwiversys/SharedForward.h.in
@@ -610,6 +610,12 @@ static int kwsys_shared_forward_self_path(const char* argv0, char* result)
       }
     }
 
+  if(strlen(argv0) >= KWSYS_SHARED_FORWARD_MAXPATH)
+    {
+    /* No file can have this name.  */
+    return 0;
+    }
+
   if(has_slash)
     {
     /* There is a slash.  Use the dirname of the given location.  */
@@ -644,17 +650,21 @@ static int kwsys_shared_forward_self_path(const char* argv0, char* result)
           --length;
           }
 
-        /* Construct the name of the executable in this location.  */
-        strncpy(result, first, length);
-        result[length] = KWSYS_SHARED_FORWARD_PATH_SLASH;
-        strcpy(result+(length)+1, argv0);
-
-        /* Check if it exists and is executable.  */
-        if(kwsys_shared_forward_is_executable(result))
+        /* Skip a location that is too long to name an existing file.  */
+        if(length + 1 + strlen(argv0) < KWSYS_SHARED_FORWARD_MAXPATH)
           {
-          /* Found it.  */
-          result[length] = 0;
-          return 1;
+          /* Construct the name of the executable in this location.  */
+          strncpy(result, first, length);
+          result[length] = KWSYS_SHARED_FORWARD_PATH_SLASH;
+          strcpy(result+(length)+1, argv0);
+
+          /* Check if it exists and is executable.  */
+          if(kwsys_shared_forward_is_executable(result))
+            {
+            /* Found it.  */
+            result[length] = 0;
+            return 1;
+            }
           }
         }
 
@@ -692,6 +702,15 @@ static int kwsys_shared_forward_fullpath(const char* self_path,
     {
     /* Relative to self path.  */
     char temp_path[KWSYS_SHARED_FORWARD_MAXPATH];
+    if(strlen(self_path) + 1 + strlen(in_path) >= KWSYS_SHARED_FORWARD_MAXPATH)
+      {
+      if(desc)
+        {
+        fprintf(stderr, "Error converting %s \"%s/%s\" to real path: "
+                "name too long\n", desc, self_path, in_path);
+        }
+      return 0;
+      }
     strcpy(temp_path, self_path);
     strcat(temp_path, kwsys_shared_forward_path_slash);
     strcat(temp_path, in_path);
@@ -834,10 +853,12 @@ static int @KWSYS_NAMESPACE@_shared_forward_to_real(int argc, char** argv_in)
   if(kwsys_shared_forward_self_path(argv[0], self_path))
     {
     /* Found this executable.  Use it to get the library directory.  */
-    char exe[KWSYS_SHARED_FORWARD_MAXPATH];
+    char real_exe[KWSYS_SHARED_FORWARD_MAXPATH];
     if(kwsys_shared_forward_get_settings(self_path,
-                                         kwsys_shared_forward_ldpath, exe))
+                                         kwsys_shared_forward_ldpath, real_exe))
       {
+      const char* exe = real_exe;
+
       /* Append the old runtime search path.  */
       const char* old_ldpath = getenv(KWSYS_SHARED_FORWARD_LDPATH);
       char* ldpath = kwsys_shared_forward_ldpath;
@@ -867,7 +888,7 @@ static int @KWSYS_NAMESPACE@_shared_forward_to_real(int argc, char** argv_in)
         if(argc > 2)
           {
           /* Use the command line given.  */
-          strcpy(exe, argv[2]);
+          exe = argv[2];
           argv += 2;
           argc -= 2;
           }
-- 
2.43.0


From 038a90e18c8d2baef92c9cbf56eb67d45cc9db68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:53 +0000
Subject: [PATCH 104/107] fix: empty PATH entries and the root directory are
 not searched

---
 vital/kwiversys/SharedForward.h.in | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/vital/kwiversys/SharedForward.h.in b/vital/kwiversys/SharedForward.h.in
index b4648a3..13572d2 100644
--- a/vital/kwiversys/SharedForward.h.in
+++ b/vital/kwiversys/SharedForward.h.in
@@ -626,26 +626,34 @@ static int kwsys_shared_forward_self_path(const char* argv0, char* result)
     {
     /* There is no slash.  Search the PATH for the executable.  */
     const char* path = getenv("PATH");
-    const char* begin = path;
-    const char* end = begin + (begin?strlen(begin):0);
-    const char* first = begin;
-    while(first != end)
+    const char* first = path;
+    while(first)
       {
       /* Store the end of this path entry.  */
       const char* last;
 
-      /* Skip all path separators.  */
-      for(;*first && *first == KWSYS_SHARED_FORWARD_PATH_SEP; ++first);
+      /* Store the directory named by this path entry.  */
+      const char* dir = first;
+      size_t length;
 
       /* Find the next separator.  */
       for(last = first;*last && *last != KWSYS_SHARED_FORWARD_PATH_SEP; ++last);
+      length = (size_t)(last-first);
+
+#if !defined(_WIN32)
+      /* An empty entry stands for the current directory.  */
+      if(length == 0)
+        {
+        dir = ".";
+        length = 1;
+        }
+#endif
 
       /* If we got a non-empty directory, look for the executable there.  */
-      if(first < last)
+      if(length > 0)
         {
         /* Determine the length without trailing slash.  */
-        size_t length = (size_t)(last-first);
-        if(*(last-1) == '/' || *(last-1) == '\\')
+        if(length > 1 && (dir[length-1] == '/' || dir[length-1] == '\\'))
           {
           --length;
           }
@@ -654,7 +662,7 @@ static int kwsys_shared_forward_self_path(const char* argv0, char* result)
         if(length + 1 + strlen(argv0) < KWSYS_SHARED_FORWARD_MAXPATH)
           {
           /* Construct the name of the executable in this location.  */
-          strncpy(result, first, length);
+          strncpy(result, dir, length);
           result[length] = KWSYS_SHARED_FORWARD_PATH_SLASH;
           strcpy(result+(length)+1, argv0);
 
@@ -669,7 +677,7 @@ static int kwsys_shared_forward_self_path(const char* argv0, char* result)
         }
 
       /* Move to the next directory in the path.  */
-      first = last;
+      first = *last ? last + 1 : 0;
       }
     }
 
-- 
2.43.0


From f8d693ff1fd7951f25c20a0c204fa54ab89bcb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:53 +0000
Subject: [PATCH 105/107] fix: directory in PATH taken for the program

---
 vital/kwiversys/SharedForward.h.in | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vital/kwiversys/SharedForward.h.in b/vital/kwiversys/SharedForward.h.in
index 13572d2..0d2f6eb 100644
--- a/vital/kwiversys/SharedForward.h.in
+++ b/vital/kwiversys/SharedForward.h.in
@@ -587,6 +587,14 @@ static int kwsys_shared_forward_is_executable(const char* f)
 #endif
   if(KWSYS_SHARED_FORWARD_ACCESS(f, KWSYS_SHARED_FORWARD_ACCESS_OK) == 0)
     {
+#if !defined(_WIN32)
+    /* A directory passes the above test but cannot be executed.  */
+    struct stat fs;
+    if(stat(f, &fs) != 0 || S_ISDIR(fs.st_mode))
+      {
+      return 0;
+      }
+#endif
     return 1;
     }
   else
-- 
2.43.0


From e552f168918a14d4ff6a073dff8560a9b25c7b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:53 +0000
Subject: [PATCH 106/107] fix: configuration directory removed from the wrong
 path

---
 vital/kwiversys/SharedForward.h.in | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/SharedForward.h.in b/vital/kwiversys/SharedForward.h.in
index 0d2f6eb..a9c6e55 100644
--- a/vital/kwiversys/SharedForward.h.in
+++ b/vital/kwiversys/SharedForward.h.in
@@ -791,8 +791,9 @@ static int kwsys_shared_forward_get_settings(const char* self_path,
 #endif
 
 #if defined(KWSYS_SHARED_FORWARD_CONFIG_NAME)
-    /* Remove the configuration directory from self_path.  */
-    kwsys_shared_forward_dirname(self_path, self_path_logical);
+    /* Remove the configuration directory from self_path.  Use its real
+       name because the given one need not end in the configuration.  */
+    kwsys_shared_forward_dirname(self_path_real, self_path_logical);
 #endif
     }
   else
-- 
2.43.0


From 50c3a77fac887e1e4f9d6b1705d88889577f6e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:53 +0000
Subject: [PATCH 107/107] fix: long current directories are not found

---
 vital/kwiversys/SystemTools.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 3e77c72..72634d6 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -3298,8 +3298,8 @@ int SystemTools::ChangeDirectory(const std::string& dir)
 
 std::string SystemTools::GetCurrentWorkingDirectory(bool collapse)
 {
-  char buf[2048];
-  const char* cwd = Getcwd(buf, 2048);
+  char buf[KWSYS_SYSTEMTOOLS_MAXPATH];
+  const char* cwd = Getcwd(buf, KWSYS_SYSTEMTOOLS_MAXPATH);
   std::string path;
   if ( cwd )
     {
@@ -3543,8 +3543,8 @@ std::string SystemTools::CollapseFullPath(const std::string& in_path,
     else
       {
       // Use the current working directory as a base path.
-      char buf[2048];
-      if(const char* cwd = Getcwd(buf, 2048))
+      char buf[KWSYS_SYSTEMTOOLS_MAXPATH];
+      if(const char* cwd = Getcwd(buf, KWSYS_SYSTEMTOOLS_MAXPATH))
         {
         SystemTools::SplitPath(cwd, base_components);
         }
@@ -5300,8 +5300,8 @@ void SystemTools::ClassInitialize()
   // logical name.
   if(const char* pwd = getenv("PWD"))
     {
-    char buf[2048];
-    if(const char* cwd = Getcwd(buf, 2048))
+    char buf[KWSYS_SYSTEMTOOLS_MAXPATH];
+    if(const char* cwd = Getcwd(buf, KWSYS_SYSTEMTOOLS_MAXPATH))
       {
       // The current working directory may be a logical path.  Find
       // the shortest logical path that still produces the correct
-- 
2.43.0

