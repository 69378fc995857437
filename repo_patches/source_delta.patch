From 9fda4e438d035e60b95a3bae9dd4df0ea8097552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 01/52] fix: find_unit_end leaves a position already on a
 2880-byte boundary where it is

---
 include/boost/astronomy/io/fits_stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/fits_stream.hpp b/include/boost/astronomy/io/fits_stream.hpp
index 9d41a05..dc10245 100644
--- a/include/boost/astronomy/io/fits_stream.hpp
+++ b/include/boost/astronomy/io/fits_stream.hpp
@@ -148,7 +148,7 @@ namespace boost {namespace astronomy {namespace io {
             std::size_t current_pos = this->file.tellg();
             std::size_t logical_record_size = 2880;
 
-            std::size_t offset = logical_record_size - (current_pos % logical_record_size);
+            std::size_t offset = (logical_record_size - (current_pos % logical_record_size)) % logical_record_size;
             std::size_t newpos = (current_pos + offset);
             return newpos;
         }
-- 
2.43.0


From 570cc0c48a503bec3a92137e43c540b484806501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 02/52] fix: fits_stream::read reports a short read instead of
 returning made-up blanks

A header without an END card was read forever, and truncated data units were
filled with blanks.
---
 include/boost/astronomy/io/fits_stream.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/astronomy/io/fits_stream.hpp b/include/boost/astronomy/io/fits_stream.hpp
index dc10245..323be7d 100644
--- a/include/boost/astronomy/io/fits_stream.hpp
+++ b/include/boost/astronomy/io/fits_stream.hpp
@@ -107,10 +107,14 @@ namespace boost {namespace astronomy {namespace io {
         /**
          * @brief Reads num_bytes from the file from current position as a string
          * @param[in] num_bytes Amount of data to be read in bytes
+         * @throw file_reading_exception If the file ends before num_bytes could be read
         */
         std::string read(std::size_t num_bytes) {
             std::string data(num_bytes, ' ');
             this->file.read(&data[0], num_bytes);
+            if (static_cast<std::size_t>(this->file.gcount()) != num_bytes) {
+                throw file_reading_exception("Unexpected end of file");
+            }
             return data;
         }
 
-- 
2.43.0


From 984550a82e34bf5c8a2bdc2a8ec8b0b7576fa555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 03/52] fix: binary table fields keep all of their bytes

Bytes that happen to be white space were trimmed off the stored field.
---
 include/boost/astronomy/io/binary_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index b43218b..4d4b9d9 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -340,7 +340,7 @@ private:
             starting_offset = ending_offset;
             ending_offset = starting_offset + column_size(this->col_metadata_[current_column].TFORM());
 
-            this->tb_data[current_row][current_column++] = boost::algorithm::trim_copy(std::string(starting_offset, ending_offset));
+            this->tb_data[current_row][current_column++] = std::string(starting_offset, ending_offset);
             if (current_column % this->tfields_ == 0) {
                 current_row++;
                 current_column = 0;
-- 
2.43.0


From 01cef79c522ec00d371825a567068c80f6c79707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 04/52] fix: arrays of array descriptors are decoded with a
 stride of two

---
 include/boost/astronomy/io/binary_data_converter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/binary_data_converter.hpp b/include/boost/astronomy/io/binary_data_converter.hpp
index 10466ce..d2829ae 100644
--- a/include/boost/astronomy/io/binary_data_converter.hpp
+++ b/include/boost/astronomy/io/binary_data_converter.hpp
@@ -325,9 +325,9 @@ namespace boost{namespace astronomy{namespace io{
         for (std::size_t i = 0; i < num_elements; i++) {
             values.emplace_back(
                 boost::endian::big_to_native(
-                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + i)),
+                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + 2 * i)),
                 boost::endian::big_to_native(
-                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + i +
+                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + 2 * i +
                         1)));
         }
         return values;
-- 
2.43.0


From a682f3197eab048a1fd0231dfa83ea97e42d050d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 05/52] fix: BITPIX 8 pixels are unsigned and are decoded

There is no converter for int8_t, so every pixel of such an image was zero.
---
 include/boost/astronomy/io/bitpix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/bitpix.hpp b/include/boost/astronomy/io/bitpix.hpp
index 855fd53..143799e 100644
--- a/include/boost/astronomy/io/bitpix.hpp
+++ b/include/boost/astronomy/io/bitpix.hpp
@@ -64,7 +64,7 @@ enum class bitpix
 
  template<>
  struct bitpix_type<bitpix::B8> {
-     typedef typename boost::int8_t underlying_type;
+     typedef typename boost::uint8_t underlying_type;
  };
 
  template<>
-- 
2.43.0


From 2e6885abafafe8ee2df5b2bc3b4dda99e773ea41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 06/52] fix: ASCII table rows are written with each field at
 its TBCOL

Gaps between fields and after the last one were dropped, so rows were shorter
than NAXIS1.
---
 include/boost/astronomy/io/ascii_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index 023711b..3b34b15 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -147,12 +147,12 @@ public:
 
         for (int row = 0; row < this->tb_data.size(); row++) {
 
-            std::string row_temp_buffer = "";
+            std::string row_temp_buffer(this->hdu_header.naxis(1), ' ');
 
             for (int col = 0; col < this->tb_data[row].size(); col++) {
                 std::string padding = std::string(this->column_size(this->col_metadata_[col].TFORM())-this->tb_data[row][col].length(),' ');
                 std::string final_data = padding + this->tb_data[row][col];
-                row_temp_buffer += final_data;
+                row_temp_buffer.replace(this->col_metadata_[col].TBCOL() - 1, final_data.length(), final_data);
             }
             file_writer.write(row_temp_buffer);
         }
-- 
2.43.0


From e497262a019cf113ea2b6195534acac86f24bfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:25 +0000
Subject: [PATCH 07/52] fix: copies of a table, and tables given new data, do
 not use column views of the old data

A copied table kept views that point into the table it was copied from, so edits
of the copy changed the original; set_data left views that return old values.
---
 include/boost/astronomy/io/ascii_table.hpp  | 12 ++++++++++++
 include/boost/astronomy/io/binary_table.hpp | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index 3b34b15..8fcdec5 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -57,6 +57,17 @@ public:
     */
     basic_ascii_table() {}
 
+    /**
+     * @brief      Copies the table. Column views refer to the data of the table they were made from, so none are copied
+    */
+    basic_ascii_table(basic_ascii_table const& other) : table_extension<CardPolicy>(other) {}
+
+    basic_ascii_table& operator = (basic_ascii_table const& other) {
+        table_extension<CardPolicy>::operator=(other);
+        this->cached_columns.clear();
+        return *this;
+    }
+
     /**
      * @brief      Constructs an ASCII Table object from header and data buffer
      * @param[in]  other Header part of ASCII table
@@ -73,6 +84,7 @@ public:
     void set_data(const std::string& data_buffer) {
         this->col_metadata_.clear();
         this->col_metadata_.resize(this->tfields_);
+        this->cached_columns.clear();
         set_ascii_table_info(data_buffer);
     }
 
diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 4d4b9d9..74a1a18 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -79,6 +79,17 @@ public:
     */
     basic_binary_table_extension() {}
 
+    /**
+     * @brief      Copies the table. Column views refer to the data of the table they were made from, so none are copied
+    */
+    basic_binary_table_extension(basic_binary_table_extension const& other) : table_extension<CardPolicy>(other) {}
+
+    basic_binary_table_extension& operator = (basic_binary_table_extension const& other) {
+        table_extension<CardPolicy>::operator=(other);
+        this->cached_columns.clear();
+        return *this;
+    }
+
     
     /**
     * @brief      Constructs an Binary Table object from header and data buffer
@@ -144,6 +155,7 @@ public:
     void set_data(const std::string& data_buffer) {
         this->col_metadata_.clear();
         this->col_metadata_.resize(this->tfields_);
+        this->cached_columns.clear();
         set_binary_table_info(data_buffer);
     }
 
-- 
2.43.0


From f3d80dab3089ef373a879e2618c56a4a4b9bea75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:25 +0000
Subject: [PATCH 08/52] fix: card values with a slash or a quote in them are
 read back whole

The value was cut at the first slash even inside a quoted string, lost its last
character when no blank precedes the comment slash, commentary text lost its first
character, and quotes were not doubled as FITS strings require.
---
 include/boost/astronomy/io/card.hpp              |  5 +++--
 .../boost/astronomy/io/default_card_policy.hpp   | 16 ++++++++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index 634532a..912bd66 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -235,8 +235,9 @@ private:
     */
     std::string value_imp(boost::type<std::string>) const {
         std::string val = boost::algorithm::trim_copy(this->extract_value(this->card_));
-        if (val[0] == '\'') {
-            return boost::algorithm::trim_copy(std::string(val.begin() + 1, val.end() - 1));
+        if (val.length() > 1 && val[0] == '\'') {
+            return boost::algorithm::trim_copy(
+                boost::algorithm::replace_all_copy(std::string(val.begin() + 1, val.end() - 1), "''", "'"));
         }
         else {
             return val;
diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index afb075f..a0d5a9a 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -17,6 +17,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <boost/lexical_cast.hpp>
 #include <boost/astronomy/exception/fits_exception.hpp>
 #include <boost/astronomy/io/string_conversion_utility.hpp>
+#include <boost/algorithm/string/replace.hpp>
 #include <boost/algorithm/string/trim.hpp>
 #include <boost/blank.hpp>
 #include <boost/mpl/vector.hpp>
@@ -160,7 +161,7 @@ public:
     std::string serialize_to_fits_format(const std::string& value) const {
         std::string generated_string="";
         generated_string += '\'';
-        generated_string += value;
+        generated_string += boost::replace_all_copy(value, "'", "''");
         generated_string += '\'';
         return generated_string;
     }
@@ -214,7 +215,18 @@ public:
      * @param[in] fits_card fits card from where the value needs to be extracted
     */
     std::string extract_value(const std::string& fits_card) const {
-        return fits_card.substr(9, fits_card.find('/') - 10);
+        if (!in_proper_format(fits_card)) { return fits_card.substr(8); } // commentary card, no comment field
+
+        // A '/' inside a quoted string belongs to the value, and so does a doubled quote
+        std::size_t comment_search_pos = fits_card.find_first_not_of(' ', 10);
+        if (comment_search_pos != std::string::npos && fits_card[comment_search_pos] == '\'') {
+            comment_search_pos = fits_card.find('\'', comment_search_pos + 1);
+            while (comment_search_pos != std::string::npos && fits_card.compare(comment_search_pos, 2, "''") == 0) {
+                comment_search_pos = fits_card.find('\'', comment_search_pos + 2);
+            }
+        }
+        std::size_t comment_pos = fits_card.find('/', comment_search_pos);
+        return boost::trim_right_copy(fits_card.substr(9, comment_pos == std::string::npos ? comment_pos : comment_pos - 9));
     }
 
 private:
-- 
2.43.0


From 0da20ca3f68f8edfb259115cb18132fe69de397a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:25 +0000
Subject: [PATCH 09/52] fix: a card's value does not depend on which calls were
 made before

Reading a value as a second type threw bad_get, rewriting a card left the old value
in its cache, and set_value stored a record without value indicator and padding.
---
 include/boost/astronomy/io/card.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index 912bd66..d169546 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -122,6 +122,7 @@ public:
             std::string card_content = key + "  " + value;
             this->card_ = card_content;
             this->card_.append(80 - card_content.length(),' ');
+            card_cache = boost::blank();
             return;
         }
 
@@ -151,7 +152,7 @@ public:
     template <typename ReturnType>
     ReturnType value() const
     {
-        if (!value_cached()) {
+        if (boost::get<ReturnType>(&card_cache) == nullptr) {
             card_cache =value_imp(boost::type<ReturnType>());
         }
         return boost::get<ReturnType>(card_cache); 
@@ -179,8 +180,10 @@ public:
             std::string key = this->keyword(true);
             this->card_.clear();
             this->card_.append(key);
+            this->card_.append("= ");
             this->card_.append(serialized_value);
-            card_cache = value;
+            this->card_.append(80 - this->card_.length(), ' ');
+            card_cache = boost::blank();
         }
     }
 
@@ -190,12 +193,6 @@ public:
     const std::string& raw_card() { return card_; }
 
 private:
-    /**
-     * @brief Checks if the value is internally cached
-    */
-    bool value_cached() const { return card_cache.which() != 0; }
-
-
     /**
      * @brief Creates a card from key, value and comment supplied to the method
     */
@@ -211,6 +208,7 @@ private:
             }
 
             this->card_.append(80 - this->card_.length(), ' ');
+            card_cache = boost::blank();
             return;
         }
 
-- 
2.43.0


From f5bbf7d439faeae3f1bd3c615d2690ec1b170d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:25 +0000
Subject: [PATCH 10/52] fix: complex card values written by the library can be
 read back

---
 include/boost/astronomy/io/default_card_policy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index a0d5a9a..ac8947f 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -131,7 +131,7 @@ public:
         auto space_pos = std::find(value.begin(), value.end(), ' ');
         if (space_pos != value.end()) {
             std::string real_part(value.begin(), space_pos);
-            std::string imag_part(space_pos + 1, value.end());
+            std::string imag_part = boost::trim_copy(std::string(space_pos + 1, value.end()));
 
             return std::complex<T>(parse_to<T>(real_part), parse_to<T>(imag_part));
         }
-- 
2.43.0


From 28c6ab7049629433b21aab68898bc83f8d0c5ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:25 +0000
Subject: [PATCH 11/52] fix: a card string shorter than its keyword field is an
 invalid card, not out of range

---
 include/boost/astronomy/io/default_card_policy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index ac8947f..85fb32e 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -70,7 +70,7 @@ public:
     */
     bool is_card_valid(const std::string& fits_card) const {
 
-        if (fits_card.length() <= 80)
+        if (fits_card.length() >= 8 && fits_card.length() <= 80)
         {
             if (in_proper_format(fits_card) || is_reserved_keyword(boost::trim_copy(fits_card.substr(0, 7)))|| is_blank(fits_card))
                 return true;
-- 
2.43.0


From 392e4843437628210fab13fa5169b0eaad7c168c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:25 +0000
Subject: [PATCH 12/52] fix: commentary cards keep text out of the keyword
 field and refuse text over 70 characters

Blank and short keywords let the text start inside the keyword field; long text
raised std::length_error after the card had been overwritten.
---
 include/boost/astronomy/io/card.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index d169546..ab2c6ae 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -118,8 +118,8 @@ public:
     */
     void create_commentary_card(std::string const& key, std::string const& value)
     {
-        if (this->is_key_valid(key)) {
-            std::string card_content = key + "  " + value;
+        if (this->is_key_valid(key) && value.length() <= 70) {
+            std::string card_content = this->format_keyword(key) + " " + value;
             this->card_ = card_content;
             this->card_.append(80 - card_content.length(),' ');
             card_cache = boost::blank();
-- 
2.43.0


From b9d0676c312b2921b4ad835b25fbd6af85f7a4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:25 +0000
Subject: [PATCH 13/52] fix: files without the optional keywords EXTEND and
 EXTNAME can be opened

---
 include/boost/astronomy/io/extension_hdu.hpp | 4 +++-
 include/boost/astronomy/io/primary_hdu.hpp   | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/extension_hdu.hpp b/include/boost/astronomy/io/extension_hdu.hpp
index a2f59f9..efd7048 100644
--- a/include/boost/astronomy/io/extension_hdu.hpp
+++ b/include/boost/astronomy/io/extension_hdu.hpp
@@ -58,7 +58,9 @@ private:
     void set_extension_info() {
         gcount = hdu_header.template value_of<int>("GCOUNT");
         pcount = hdu_header.template value_of<int>("PCOUNT");
-        extname = hdu_header.template value_of<std::string>("EXTNAME");
+        if (hdu_header.contains_keyword("EXTNAME")) {
+            extname = hdu_header.template value_of<std::string>("EXTNAME");
+        }
     }
 };
 
diff --git a/include/boost/astronomy/io/primary_hdu.hpp b/include/boost/astronomy/io/primary_hdu.hpp
index de5da45..0b25590 100644
--- a/include/boost/astronomy/io/primary_hdu.hpp
+++ b/include/boost/astronomy/io/primary_hdu.hpp
@@ -125,7 +125,7 @@ private:
     void init_primary_hdu() {
 
         simple = hdu_header.template value_of<bool>("SIMPLE");
-        extend = hdu_header.template value_of<bool>("EXTEND");
+        extend = hdu_header.contains_keyword("EXTEND") && hdu_header.template value_of<bool>("EXTEND");
     }
 
     /**
-- 
2.43.0


From a12055cd1a86217e2eb4d1a58073da5a9b94d8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:26 +0000
Subject: [PATCH 14/52] fix: initializing a reader for another file forgets the
 HDUs of the first

---
 include/boost/astronomy/io/fits_reader.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index 67b9d43..b3af628 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -81,6 +81,7 @@ namespace boost { namespace astronomy { namespace io {
         void initialize(const std::string& filepath) {
             file_reader.set_file(filepath);
             hdus_control_block.clear();
+            hdu_list.clear();
             hdus_control_block.filepath = filepath;
         }
 
-- 
2.43.0


From 59964f8f9f783e8414740143d19979a30c00457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:26 +0000
Subject: [PATCH 15/52] fix: reading a header again replaces it

---
 include/boost/astronomy/io/header.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/astronomy/io/header.hpp b/include/boost/astronomy/io/header.hpp
index 76dcb7e..ca930a0 100644
--- a/include/boost/astronomy/io/header.hpp
+++ b/include/boost/astronomy/io/header.hpp
@@ -71,6 +71,9 @@ public:
     template<typename FileReader>
     void read_header(FileReader& file_reader) {
 
+        cards.clear();
+        key_index.clear();
+        naxis_.clear();
         cards.reserve(36); //reserves the space of atleast 1 HDU unit
         std::string card_buffer;
 
-- 
2.43.0


From ea132757dd03781480e5055b5ef66121b73a68cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:26 +0000
Subject: [PATCH 16/52] fix: headers with the same cards are equal whether or
 not their name was asked for

---
 include/boost/astronomy/io/header.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/boost/astronomy/io/header.hpp b/include/boost/astronomy/io/header.hpp
index ca930a0..6b89969 100644
--- a/include/boost/astronomy/io/header.hpp
+++ b/include/boost/astronomy/io/header.hpp
@@ -59,7 +59,6 @@ public:
    bool operator == (const header& other) {
        return bitpix_value == other.bitpix_value &&
            this->naxis_ == other.naxis_ &&
-           this->hdu_name == other.hdu_name &&
            this->cards == other.cards &&
            this->key_index == other.key_index;
    }
-- 
2.43.0


From 48bf87108eb02dbcbc3bae4a822808f8ad480b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:19 +0000
Subject: [PATCH 17/52] fix: pixels of an image read from a file can be
 addressed by position

operator() used a width that reading never set.
---
 include/boost/astronomy/io/image.hpp           | 10 +++++++---
 include/boost/astronomy/io/image_extension.hpp |  2 +-
 include/boost/astronomy/io/primary_hdu.hpp     |  2 +-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/boost/astronomy/io/image.hpp b/include/boost/astronomy/io/image.hpp
index 02ee8d3..eee460a 100644
--- a/include/boost/astronomy/io/image.hpp
+++ b/include/boost/astronomy/io/image.hpp
@@ -163,11 +163,12 @@ public:
 struct read_image_visitor :public boost::static_visitor<> {
 
     const std::string& data_buffer;
+    std::size_t width;
 
-    read_image_visitor(const std::string& data_buf) :data_buffer(data_buf) {}
+    read_image_visitor(const std::string& data_buf, std::size_t image_width = 0) :data_buffer(data_buf), width(image_width) {}
 
     template<typename Image_Type>
-    void operator()(Image_Type& type) { type.read_image(data_buffer); }
+    void operator()(Image_Type& type) { type.read_image(data_buffer, width); }
 };
 
 /**
@@ -194,8 +195,9 @@ public:
     /**
      * @brief Reads an image from the data buffer
      * @param[in] data_buffer Data associated with image HDU or primary HDU
+     * @param[in] width Number of pixels in a row (NAXIS1), 0 if all of them are in one row
     */
-    void read_image(const std::string& data_buffer) {
+    void read_image(const std::string& data_buffer, std::size_t width = 0) {
 
         if (data_buffer.empty()) { return; }
 
@@ -203,6 +205,8 @@ public:
         std::string::const_iterator raw_data_iter=data_buffer.begin();
 
         this->data_.resize(data_buffer.size() / element_size);
+        this->width_ = width == 0 ? this->data_.size() : width;
+        this->height_ = this->data_.size() / this->width_;
 
 
         for (auto& element : this->data_) {
diff --git a/include/boost/astronomy/io/image_extension.hpp b/include/boost/astronomy/io/image_extension.hpp
index 4936c9c..6a56b41 100644
--- a/include/boost/astronomy/io/image_extension.hpp
+++ b/include/boost/astronomy/io/image_extension.hpp
@@ -94,7 +94,7 @@ private:
      * @param[in] data_buffer Image data in binary form from the file
     */
     void set_image_data(const std::string& data_buffer) {
-        read_image_visitor read_image_visit(data_buffer);
+        read_image_visitor read_image_visit(data_buffer, this->hdu_header.total_dimensions() > 0 ? this->hdu_header.naxis(1) : 0);
         boost::apply_visitor(read_image_visit, data);
     }
 
diff --git a/include/boost/astronomy/io/primary_hdu.hpp b/include/boost/astronomy/io/primary_hdu.hpp
index 0b25590..30c16ac 100644
--- a/include/boost/astronomy/io/primary_hdu.hpp
+++ b/include/boost/astronomy/io/primary_hdu.hpp
@@ -59,7 +59,7 @@ public:
     basic_primary_hdu( const header<CardPolicy> & other,const std::string& data_buffer):hdu_header(other) {
 
         instantiate_primary_hdu(hdu_header.bitpix());
-        read_image_visitor read_image_visit(data_buffer);
+        read_image_visitor read_image_visit(data_buffer, hdu_header.total_dimensions() > 0 ? hdu_header.naxis(1) : 0);
         boost::apply_visitor(read_image_visit, data);
         init_primary_hdu();
     }
-- 
2.43.0


From 7a1520d8181e75da02e23b457b570b6362c0cd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:45 +0000
Subject: [PATCH 18/52] fix: galactic to RA/Dec is the inverse of RA/Dec to
 galactic

---
 .../boost/astronomy/coordinate/utility/utility.hpp   | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/astronomy/coordinate/utility/utility.hpp b/include/boost/astronomy/coordinate/utility/utility.hpp
index 685066c..4b6454f 100644
--- a/include/boost/astronomy/coordinate/utility/utility.hpp
+++ b/include/boost/astronomy/coordinate/utility/utility.hpp
@@ -228,13 +228,13 @@ struct galactic_to_ra_dec
 
   galactic_to_ra_dec(){
     conv(0,0) = -0.0669887;
-    conv(0,1) = 0.8727558;
-    conv(0,2) = -0.4835389;
-    conv(1,0) = -0.4927285;
+    conv(0,1) = 0.4927285;
+    conv(0,2) = -0.8676008;
+    conv(1,0) = -0.8727558;
     conv(1,1) = -0.4503470;
-    conv(1,2) = -0.7445846;
-    conv(2,0) = -0.8676008;
-    conv(2,1) = 0.1883746;
+    conv(1,2) = -0.1883746;
+    conv(2,0) = -0.4835389;
+    conv(2,1) = 0.7445846;
     conv(2,2) = 0.4601998;
   }
 
-- 
2.43.0


From 3980acc408dc5ff7b4a8cf7032fef3335b669dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:45 +0000
Subject: [PATCH 19/52] fix: latitudes at the poles and separations of
 coincident points are not NaN

---
 include/boost/astronomy/coordinate/ref_frame/base_frame.hpp | 5 +++--
 include/boost/astronomy/coordinate/utility/utility.hpp      | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
index 74d46d1..ceef8d2 100644
--- a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
+++ b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
@@ -106,8 +106,9 @@ public:
     bu::quantity<bu::si::plane_angle> get_angular_separation(base_frame const& other) const
     {
         return bu::quantity<bu::si::plane_angle>::from_value(
-            std::acos((dot(this->data, other.get_data()) /
-                (magnitude(this->data) * magnitude(other.get_data()))).value())
+            // rounding may leave the cosine just outside of the domain of acos
+            std::acos(std::max(-1.0, std::min(1.0, static_cast<double>((dot(this->data, other.get_data()) /
+                (magnitude(this->data) * magnitude(other.get_data()))).value()))))
         );
     }
 
diff --git a/include/boost/astronomy/coordinate/utility/utility.hpp b/include/boost/astronomy/coordinate/utility/utility.hpp
index 4b6454f..9c12e39 100644
--- a/include/boost/astronomy/coordinate/utility/utility.hpp
+++ b/include/boost/astronomy/coordinate/utility/utility.hpp
@@ -296,7 +296,7 @@ struct extract_coordinates{
     double p = column_vector(2,0);
 
     theta = atan2(n,m);
-    phi = asin(p);
+    phi = asin(std::max(-1.0, std::min(1.0, p))); // rounding may leave p just outside of the domain
   }
 
   pair<angle_radian,angle_radian> get_coordinates() const{
-- 
2.43.0


From 4bb8d444bfcf1d36deeac9bc7bd9a6ccff42d142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:45 +0000
Subject: [PATCH 20/52] fix: observation time of the CIRS frame can be used

---
 include/boost/astronomy/coordinate/ref_frame/cirs.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/ref_frame/cirs.hpp b/include/boost/astronomy/coordinate/ref_frame/cirs.hpp
index 975a88c..8cd4313 100644
--- a/include/boost/astronomy/coordinate/ref_frame/cirs.hpp
+++ b/include/boost/astronomy/coordinate/ref_frame/cirs.hpp
@@ -65,12 +65,12 @@ public:
 
     boost::posix_time::ptime get_obs_time() const
     {
-        return this->obstime;
+        return this->obs_time;
     }
 
     void set_obs_time(boost::posix_time::ptime const& time)
     {
-        this->obstime = time;
+        this->obs_time = time;
     }
 };
 
-- 
2.43.0


From c5a17d2abaf110fafacef94143293e938bf3537f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:45 +0000
Subject: [PATCH 21/52] fix: azimuth of the horizontal frame is set with an
 angle

---
 include/boost/astronomy/coordinate/coord_sys/alt_az.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp b/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp
index 02d1150..408f738 100644
--- a/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp
@@ -229,7 +229,7 @@ public:
     }
 
     //!sets value of azimuth component of the coordinate
-    void set_az(typename Representation::quantity3 const& az)
+    void set_az(typename Representation::quantity2 const& az)
     {
         this->data.set_lon(az);
     }
-- 
2.43.0


From 25d2cc514719aa5616deef12fab3356ded3832f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:45 +0000
Subject: [PATCH 22/52] fix: supergalactic longitude can be set

---
 include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp b/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp
index 37203f1..0b8e8aa 100644
--- a/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp
@@ -202,7 +202,7 @@ public:
     }
 
     //!sets value of component sgl of the supergalactic coordinate
-    void set_sgl(typename Representation::quantity2 const& sgl) const
+    void set_sgl(typename Representation::quantity2 const& sgl)
     {
         this->data.set_lon(sgl);
     }
-- 
2.43.0


From 3e5a5f1ccf2f6268b47d82af1804acd04a536d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:45 +0000
Subject: [PATCH 23/52] fix: a decimal_hour made from hours, minutes and
 seconds has those parts

---
 include/boost/astronomy/time/parser.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/boost/astronomy/time/parser.hpp b/include/boost/astronomy/time/parser.hpp
index 926bf7c..7bd17ad 100644
--- a/include/boost/astronomy/time/parser.hpp
+++ b/include/boost/astronomy/time/parser.hpp
@@ -36,9 +36,7 @@ public:
       seconds = secondsRemainder;
     }
 
-    decimal_hour(double const& h,double const& m,double const& s){
-      dh = h + m/60 + s/(60*60);
-    }
+    decimal_hour(double const& h,double const& m,double const& s) : decimal_hour(h + m/60 + s/(60*60)) {}
 
     double get() const{
         return dh;
-- 
2.43.0


From ef980fcb02d34f89b7d7ca1e123067c7b94ee709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:45 +0000
Subject: [PATCH 24/52] fix: the last three days of the Julian calendar get the
 Julian date of that calendar

---
 include/boost/astronomy/time/time_conversions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/time/time_conversions.hpp b/include/boost/astronomy/time/time_conversions.hpp
index ca35717..0fd91b9 100644
--- a/include/boost/astronomy/time/time_conversions.hpp
+++ b/include/boost/astronomy/time/time_conversions.hpp
@@ -56,7 +56,7 @@ double julian_date(boost::posix_time::ptime t)
 
     //Calculate B, check if the date is later than 1582 October 15
     double B;
-    boost::gregorian::date dt1(1582, boost::gregorian::Oct , 1);
+    boost::gregorian::date dt1(1582, boost::gregorian::Oct , 14);
     if ( dt > dt1 )
     {
         double A = floor(yprime / 100);
-- 
2.43.0


From 63e307251bbcb7861ff543547bacdb5534a6d99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:19 +0000
Subject: [PATCH 25/52] fix: bit array fields of binary tables take one byte
 for eight bits

They were given one byte for each bit, so all fields after them were misread.
---
 include/boost/astronomy/io/binary_table.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 74a1a18..8a041ce 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -170,6 +170,7 @@ public:
                             return c == '\'' || c == ' ';
                         });
         auto no_of_elements = element_count(form);
+        if (get_type(form) == 'X') { return (no_of_elements + 7) / 8; } // bits, 8 to a byte
         auto size_type = type_size(get_type(form));
         return no_of_elements * size_type;
     }
@@ -311,7 +312,9 @@ private:
             }
             catch (std::out_of_range&) {/*Do Nothing*/ }
 
-            this->col_metadata_[i].total_elements(element_count(this->col_metadata_[i].TFORM()));
+            // A bit array is accessed by its bytes
+            this->col_metadata_[i].total_elements(get_type(this->col_metadata_[i].TFORM()) == 'X' ?
+                column_size(this->col_metadata_[i].TFORM()) : element_count(this->col_metadata_[i].TFORM()));
         }
     }
 
-- 
2.43.0


From 250fdafd51d6443ff17f19043d935c4f72df301b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:19 +0000
Subject: [PATCH 26/52] fix: tables whose fields do not fit their rows or their
 data are refused

The fields were read from outside of the data.
---
 include/boost/astronomy/io/ascii_table.hpp  | 10 ++++++++++
 include/boost/astronomy/io/binary_table.hpp |  7 +++++++
 2 files changed, 17 insertions(+)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index 8fcdec5..c24ef02 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -255,6 +255,16 @@ private:
         auto total_fields = this->tfields_;
         auto total_characters_per_row = this->hdu_header.naxis(1);
 
+        // Every field has to lie inside of the row
+        for (auto& field : this->col_metadata_) {
+            if (field.TBCOL() < 1 || field.TBCOL() - 1 + column_size(field.TFORM()) > total_characters_per_row) {
+                throw invalid_table_colum_format();
+            }
+        }
+        if (total_fields == 0 || data_buffer.size() < total_rows * total_characters_per_row) {
+            throw invalid_table_colum_format();
+        }
+
         // Initialize table data matrix with total_rows * total_columns elements of type string
         this->tb_data = typename table_extension<CardPolicy>::table_data(total_rows, std::vector<std::string>(total_fields, std::string()));
 
diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 8a041ce..38aa552 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -340,6 +340,13 @@ private:
         auto total_fields = this->tfields_;
         auto total_characters_per_row = this->hdu_header.naxis(1);
 
+        // Fields are stored one after another and have to fill the row
+        std::size_t row_width = 0;
+        for (auto& field : this->col_metadata_) { row_width += column_size(field.TFORM()); }
+        if (row_width != total_characters_per_row || data_buffer.size() < total_rows * total_characters_per_row) {
+            throw invalid_table_colum_format();
+        }
+
         // Initialize table data matrix with total_rows * total_columns elements of type string
         this->tb_data = typename table_extension<CardPolicy>::table_data(total_rows, std::vector<std::string>(total_fields, std::string()));
 
-- 
2.43.0


From 5881cbc970dfcb7beaf190cdb4b4667c1c474ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:08 +0000
Subject: [PATCH 27/52] fix: asking for an axis the header does not have raises
 out_of_range

It read outside of the list of axes, for example for a table with NAXIS below 2.
---
 include/boost/astronomy/io/header.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/header.hpp b/include/boost/astronomy/io/header.hpp
index 6b89969..8e5a9d7 100644
--- a/include/boost/astronomy/io/header.hpp
+++ b/include/boost/astronomy/io/header.hpp
@@ -199,7 +199,7 @@ public:
     */
     std::size_t naxis(std::size_t n = 0) const
     {
-        return this->naxis_[n - 1]; // 1 Based indexing
+        return this->naxis_.at(n - 1); // 1 Based indexing
     }
 
     /**
-- 
2.43.0


From afb7283bdc06dfec6bf1611ae1ba4cb7de339428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:08 +0000
Subject: [PATCH 28/52] fix: columns without TSCAL and TZERO have the defaults
 of the FITS standard

The values were uninitialised.
---
 include/boost/astronomy/io/column.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/column.hpp b/include/boost/astronomy/io/column.hpp
index e374b12..b6a5b10 100644
--- a/include/boost/astronomy/io/column.hpp
+++ b/include/boost/astronomy/io/column.hpp
@@ -39,7 +39,7 @@ public:
     /**
      * @brief   Constructs a standalone object of column structure
     */
-    column(){}
+    column() : index_(0), start(0), scale(1), zero(0), total_elem_field(0) {}
 
     /**
      * @details     Constructs a column object and sets the value for
-- 
2.43.0


From 5647bbbe6ebc439cde6a3ac574576da98912a8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:44 +0000
Subject: [PATCH 29/52] fix: the parts of a complex card value do not run
 together when the second fills its field

---
 include/boost/astronomy/io/default_card_policy.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index 85fb32e..a8ad121 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -191,7 +191,9 @@ public:
     */
     template<typename T>
     std::string serialize_to_fits_format(std::complex<T> value)const {
-        return serialize_to_fits_format(value.real())+ serialize_to_fits_format(value.imag());        
+        std::string imag_part = serialize_to_fits_format(value.imag());
+        if (imag_part[0] != ' ') { imag_part.insert(0, 1, ' '); } // a part as wide as its field must not touch the other
+        return serialize_to_fits_format(value.real()) + imag_part;
     }
 
     /**
-- 
2.43.0


From b7ec1c31fb01c751eed756c812d4cd374fda9c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:53 +0000
Subject: [PATCH 30/52] fix: a column view shows what the table holds, whoever
 changed it

---
 include/boost/astronomy/io/column_data.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/boost/astronomy/io/column_data.hpp b/include/boost/astronomy/io/column_data.hpp
index f14f387..84b0d0d 100644
--- a/include/boost/astronomy/io/column_data.hpp
+++ b/include/boost/astronomy/io/column_data.hpp
@@ -13,6 +13,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <cstddef>
 #include <vector>
 #include <unordered_map>
+#include <utility>
 #include <sstream>
 #include <boost/static_assert.hpp>
 #include <boost/astronomy/io/column.hpp>
@@ -64,7 +65,7 @@ template<typename DataType,typename Converter>
 struct column_view:column{
 private:
     std::vector<std::vector<std::string>>* table_ref;
-    std::unordered_map<int, DataType> cached_index;
+    std::unordered_map<int, std::pair<std::string, DataType>> cached_index; // cell contents and the value they stand for
 public:
     /**
      * @brief Default constructor for storage
@@ -145,7 +146,6 @@ public:
      * @brief Updates the element at perticular row of the associated column in HDU table
     */
     void update_value(int row, DataType new_value){
-        cached_index[row] = new_value;
         (*table_ref)[row][this->index()-1] = Converter::serialize(new_value);
     }
 
@@ -155,15 +155,16 @@ public:
    */
     Proxy<DataType,Converter> operator [](int row_number) {
 
+        auto const& raw_data_str = (*table_ref)[row_number][this->index()-1];
         auto cached_iter = cached_index.find(row_number);
-        
-        if (cached_iter != cached_index.end()) {
-            return Proxy<DataType,Converter>(cached_iter->second, this,row_number);
-        }
 
-        auto raw_data_str = (*table_ref)[row_number][this->index()-1];
-        cached_index.emplace(row_number, Converter::template deserialize_to<DataType>(raw_data_str,this->total_elements()));
-        return Proxy<DataType,Converter>(cached_index.find(row_number)->second, this,row_number);
+        // The cell may have been changed since by another view of the column or by the owner of the table
+        if (cached_iter == cached_index.end() || cached_iter->second.first != raw_data_str) {
+            DataType value = Converter::template deserialize_to<DataType>(raw_data_str,this->total_elements());
+            cached_index[row_number] = std::make_pair(raw_data_str, value);
+            return Proxy<DataType,Converter>(value, this,row_number);
+        }
+        return Proxy<DataType,Converter>(cached_iter->second.second, this,row_number);
     }
 
 };
-- 
2.43.0


From d81d640ce7b325d64117dc90982b9eb2b86d83ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:07 +0000
Subject: [PATCH 31/52] fix: a binary table row whose fields no longer fit it
 is refused, not written

---
 include/boost/astronomy/io/binary_table.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 38aa552..9fe6a48 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -137,6 +137,9 @@ public:
             std::string row_temp_buffer = "";
 
             for (int col = 0; col < this->tb_data[row].size(); col++) {
+                if (this->tb_data[row][col].length() != column_size(this->col_metadata_[col].TFORM())) {
+                    throw invalid_table_colum_format();
+                }
                 row_temp_buffer += this->tb_data[row][col];
             }
 
-- 
2.43.0


From c66087c7f530133fbd4712d8a981b4927681593d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:05 +0000
Subject: [PATCH 32/52] fix: text columns of ASCII tables can be edited

Serializing a std::string did not compile: both branches of the run-time
eval_if were instantiated, std::to_string among them.
---
 include/boost/astronomy/io/string_conversion_utility.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/string_conversion_utility.hpp b/include/boost/astronomy/io/string_conversion_utility.hpp
index 632d624..8b2abe2 100644
--- a/include/boost/astronomy/io/string_conversion_utility.hpp
+++ b/include/boost/astronomy/io/string_conversion_utility.hpp
@@ -11,6 +11,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <sstream>
 #include <limits>
 #include <boost/lexical_cast.hpp>
+#include <boost/hana/bool.hpp>
 #include <boost/hana/eval_if.hpp>
 #include <boost/astronomy/exception/fits_exception.hpp>
 
@@ -49,8 +50,8 @@ namespace boost{namespace astronomy{namespace io{
         template<typename T>
         static std::string serialize(T value) {
             return
-                boost::hana::eval_if(std::numeric_limits<T>::is_integer,
-                    [&value] {return std::to_string(value); },
+                boost::hana::eval_if(boost::hana::bool_c<std::numeric_limits<T>::is_integer>,
+                    [&value](auto _) {return std::to_string(_(value)); },
                     [&value](auto _) {
                         //to_string does not maintain the same rep for floating point numbers causing field size problems
                         //to_string dosent work for custom types as well(although here it is)
-- 
2.43.0


From 59084521d4491f0534f67e960c7c414ec55d2291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:02 +0000
Subject: [PATCH 33/52] fix: fits_stream::at_end asked twice at the end of a
 file no longer fails the stream

---
 include/boost/astronomy/io/fits_stream.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/fits_stream.hpp b/include/boost/astronomy/io/fits_stream.hpp
index 323be7d..bd3618f 100644
--- a/include/boost/astronomy/io/fits_stream.hpp
+++ b/include/boost/astronomy/io/fits_stream.hpp
@@ -123,7 +123,8 @@ namespace boost {namespace astronomy {namespace io {
         */
         bool at_end() {
 
-            return (this->file.peek(), this->file.eof());
+            // A second peek at the end would fail the stream, and seeking would no longer work
+            return this->file.eof() || (this->file.peek(), this->file.eof());
         }
 
         /**
-- 
2.43.0


From 977e772cc563c5b2eca5b9a48cc6ebf374dbb991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:58 +0000
Subject: [PATCH 34/52] fix: write_to reports a file it could not create or
 write

---
 include/boost/astronomy/exception/fits_exception.hpp |  9 +++++++++
 include/boost/astronomy/io/fits_reader.hpp           | 10 +++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/exception/fits_exception.hpp b/include/boost/astronomy/exception/fits_exception.hpp
index e799c9c..3abe0db 100644
--- a/include/boost/astronomy/exception/fits_exception.hpp
+++ b/include/boost/astronomy/exception/fits_exception.hpp
@@ -108,6 +108,15 @@ namespace boost
                 return message.c_str();
             }
 
+        };
+        class file_writing_exception : public fits_exception {
+            std::string message;
+        public:
+            file_writing_exception(const std::string& error_message):message(error_message) {}
+            const char* what() const noexcept override {
+                return message.c_str();
+            }
+
         };
         class column_not_found_exception : public fits_exception {
             std::string message;
diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index b3af628..a8a33e9 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -131,15 +131,23 @@ namespace boost { namespace astronomy { namespace io {
          * @brief Writes all the HDU's Header and Data information to the file
          * @param[in] file_path Path where the file resides
          * @note The HDUs are written in the order they are stored
+         * @throw file_writing_exception If the file could not be created or written
         */
         void write_to(const std::string& file_path) {
             FileReader file_writer;
-            file_writer.create_file(file_path);
+            if (!file_writer.create_file(file_path)) {
+                throw file_writing_exception("Cannot Create File");
+            }
             typename ExtensionsSupported::template writer_visitor<FileReader> writer_visitor(file_writer);
 
             for (auto& hdu : hdu_list) {
             boost::apply_visitor(writer_visitor, hdu);
             }
+
+            file_writer.close();
+            if (!file_writer.get_internal_stream().good()) {
+                throw file_writing_exception("Cannot Write File");
+            }
         }
 
 
-- 
2.43.0


From 32f37cbed8585c1617dbe1b499ad1e96bae2e3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:59 +0000
Subject: [PATCH 35/52] fix: make_ functions of the celestial coordinates
 accept components in different units

---
 .../astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp    | 4 ++--
 .../astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp    | 4 ++--
 .../boost/astronomy/coordinate/coord_sys/galactic_coord.hpp   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp b/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp
index efd18b4..9035981 100644
--- a/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp
@@ -153,8 +153,8 @@ template
 equatorial_ha_coord
 <
     CoordinateType,
-    Declination<Unit1, CoordinateType>,
-    HourAngleQuantity<Unit2, CoordinateType>
+    HourAngleQuantity<Unit2, CoordinateType>,
+    Declination<Unit1, CoordinateType>
 > make_equatorial_ha_coord
 (
     HourAngleQuantity<Unit2, CoordinateType> const &Ha,
diff --git a/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp b/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp
index 974e921..56d579e 100644
--- a/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp
@@ -151,8 +151,8 @@ template
 equatorial_ra_coord
 <
   CoordinateType,
-  Declination<Unit1, CoordinateType>,
-  RightAscensionQuantity<Unit2, CoordinateType>
+  RightAscensionQuantity<Unit2, CoordinateType>,
+  Declination<Unit1, CoordinateType>
 > make_equatorial_ra_coord
 (
     RightAscensionQuantity<Unit2, CoordinateType> const &Ra,
diff --git a/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp b/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp
index 9b75d39..f593c60 100644
--- a/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp
@@ -154,8 +154,8 @@ template
 galactic_coord
 <
     CoordinateType,
-    LonQuantity<Unit1, CoordinateType>,
-    LatQuantity<Unit2, CoordinateType>
+    LatQuantity<Unit2, CoordinateType>,
+    LonQuantity<Unit1, CoordinateType>
 > make_galactic_coord
 (
         LatQuantity<Unit2, CoordinateType> const &Lat,
-- 
2.43.0


From 21ad03cae8d7ef16147171f4c58ef84187dcc156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:00 +0000
Subject: [PATCH 36/52] fix: the proper motion of a frame is in the unit of its
 type

---
 include/boost/astronomy/coordinate/ref_frame/base_frame.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
index ceef8d2..9b2c615 100644
--- a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
+++ b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
@@ -60,8 +60,8 @@ public:
     {
         return std::make_tuple
         (
-            Differential::quantity1::from_value(bg::get<0>(motion.get_differential())),
-            Differential::quantity2::from_value(bg::get<1>(motion.get_differential()))
+            motion.get_dlat(),
+            motion.get_dlon_coslat()
         );
     }
 
-- 
2.43.0


From 07e2c42f0b4bb5175c52e4d3c7e9f0a975699527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:00 +0000
Subject: [PATCH 37/52] fix: conversions, sums and products of coslat
 differentials keep the motion they stand for

---
 .../coordinate/diff/spherical_coslat_differential.hpp      | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
index 9c0ab4f..af4686d 100644
--- a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
+++ b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
@@ -243,8 +243,7 @@ public:
     >
     operator +(Addend const& addend) const
     {
-        auto cartesian1 = make_cartesian_differential
-            <CoordinateType, DistQuantity, DistQuantity, DistQuantity>(this->diff);
+        auto cartesian1 = make_cartesian_differential(*this);
         auto cartesian2 = make_cartesian_differential(addend);
 
         auto temp = cartesian1 + cartesian2;
@@ -269,7 +268,7 @@ public:
     {
 
         spherical_coslat_differential
-            <CoordinateType, LatQuantity, LonQuantity, DistQuantity> temp(this->diff);
+            <CoordinateType, LatQuantity, LonQuantity, DistQuantity> temp(*this);
 
         spherical_coslat_differential
         <
@@ -458,7 +457,7 @@ auto make_spherical_coslat_differential
             bu::quantity<bu::si::plane_angle, typename spherical_type::type>,
             bu::quantity<bu::si::plane_angle, typename spherical_type::type>,
             typename spherical_type::quantity3
-        >(temp.get_differential());
+        >(temp.get_dlat(), temp.get_dlon(), temp.get_ddist());
 }
 
 //!constructs cartesian object from spherical_coslat_differential
-- 
2.43.0


From 2db9aceed1f427373bc34676e17f12f5f3eb9809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:00 +0000
Subject: [PATCH 38/52] fix: fractions of a second count in the sidereal time

---
 include/boost/astronomy/time/time_conversions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/time/time_conversions.hpp b/include/boost/astronomy/time/time_conversions.hpp
index 0fd91b9..788923a 100644
--- a/include/boost/astronomy/time/time_conversions.hpp
+++ b/include/boost/astronomy/time/time_conversions.hpp
@@ -104,7 +104,7 @@ decimal_hour GST(boost::posix_time::ptime t)
     T0 = T0 - 24.0 * floor(T0/24.0);
 
     //Convert UT to decimal hours
-    double UT = ((t.time_of_day().seconds())/60.0 + t.time_of_day().minutes())/60.0 + t.time_of_day().hours();
+    double UT = t.time_of_day().total_microseconds() / 3600000000.0;
 
     //Multiply UT by 1.002737909
     double A = UT * 1.002737909;
-- 
2.43.0


From e08dd294b4229f464d02fa47a396b10ef288c0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:25 +0000
Subject: [PATCH 39/52] fix: the separation of two points is the angle between
 their latitudes and longitudes

---
 .../coordinate/ref_frame/base_frame.hpp       | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
index 9b2c615..22df3dd 100644
--- a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
+++ b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
@@ -105,11 +105,20 @@ public:
     //!angular separation between two coordinates in radians
     bu::quantity<bu::si::plane_angle> get_angular_separation(base_frame const& other) const
     {
-        return bu::quantity<bu::si::plane_angle>::from_value(
-            // rounding may leave the cosine just outside of the domain of acos
-            std::acos(std::max(-1.0, std::min(1.0, static_cast<double>((dot(this->data, other.get_data()) /
-                (magnitude(this->data) * magnitude(other.get_data()))).value()))))
-        );
+        typedef bu::quantity<bu::si::plane_angle, typename Representation::type> angle;
+
+        Representation const other_data = other.get_data();
+        double const lat1 = static_cast<angle>(this->data.get_lat()).value();
+        double const lat2 = static_cast<angle>(other_data.get_lat()).value();
+        double const diff = static_cast<angle>(other_data.get_lon()).value() -
+            static_cast<angle>(this->data.get_lon()).value();
+
+        double const x = std::sin(lat1) * std::sin(lat2) +
+            std::cos(lat1) * std::cos(lat2) * std::cos(diff);
+        double const y = std::hypot(std::cos(lat2) * std::sin(diff),
+            std::cos(lat1) * std::sin(lat2) - std::sin(lat1) * std::cos(lat2) * std::cos(diff));
+
+        return bu::quantity<bu::si::plane_angle>::from_value(std::atan2(y, x));
     }
 
 };
-- 
2.43.0


From 6c3bd661bf97cc72ad507abca8c6a61839201d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:51 +0000
Subject: [PATCH 40/52] fix: a spherical differential in degrees can be
 converted to spherical_coslat_differential

---
 .../coordinate/diff/spherical_coslat_differential.hpp         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
index af4686d..94be335 100644
--- a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
+++ b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
@@ -454,8 +454,8 @@ auto make_spherical_coslat_differential
     return spherical_coslat_differential
         <
             typename spherical_type::type,
-            bu::quantity<bu::si::plane_angle, typename spherical_type::type>,
-            bu::quantity<bu::si::plane_angle, typename spherical_type::type>,
+            typename spherical_type::quantity1,
+            typename spherical_type::quantity2,
             typename spherical_type::quantity3
         >(temp.get_dlat(), temp.get_dlon(), temp.get_ddist());
 }
-- 
2.43.0


From 5410792d9f8d6b8c1ead746f4e563597e4b3d24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:51 +0000
Subject: [PATCH 41/52] fix: unit_vector of a spherical representation in
 single precision compiles

---
 include/boost/astronomy/coordinate/arithmetic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/coordinate/arithmetic.hpp b/include/boost/astronomy/coordinate/arithmetic.hpp
index 2a4b024..48d6b36 100644
--- a/include/boost/astronomy/coordinate/arithmetic.hpp
+++ b/include/boost/astronomy/coordinate/arithmetic.hpp
@@ -363,7 +363,7 @@ auto unit_vector(Coordinate const& vector)
 
     tempVector.set_lat(vector.get_lat());
     tempVector.set_lon(vector.get_lon());
-    tempVector.set_dist(1.0 * typename Coordinate::quantity3::unit_type());
+    tempVector.set_dist(Coordinate::quantity3::from_value(1));
 
     return tempVector;
 }
-- 
2.43.0


From af14411cfd51eaa6ecac69015b37709b5b28c06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:28 +0000
Subject: [PATCH 42/52] fix: converting a zero vector to spherical coordinates
 leaves no angle uninitialised

---
 include/boost/astronomy/coordinate/diff/base_differential.hpp  | 2 +-
 include/boost/astronomy/coordinate/rep/base_representation.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/diff/base_differential.hpp b/include/boost/astronomy/coordinate/diff/base_differential.hpp
index eccb035..eeb619c 100644
--- a/include/boost/astronomy/coordinate/diff/base_differential.hpp
+++ b/include/boost/astronomy/coordinate/diff/base_differential.hpp
@@ -40,7 +40,7 @@ struct base_differential
         "DimensionCount is expected to be 2 or 3");
     ///@endcond
 protected:
-    bg::model::point<CoordinateType, DimensionCount, CoordinateSystem> diff;
+    bg::model::point<CoordinateType, DimensionCount, CoordinateSystem> diff{};
 
 public:
 
diff --git a/include/boost/astronomy/coordinate/rep/base_representation.hpp b/include/boost/astronomy/coordinate/rep/base_representation.hpp
index 5b522f4..12f3c87 100644
--- a/include/boost/astronomy/coordinate/rep/base_representation.hpp
+++ b/include/boost/astronomy/coordinate/rep/base_representation.hpp
@@ -42,7 +42,7 @@ struct base_representation
     ///@endcond
 
 protected:
-    bg::model::point<CoordinateType, DimensionCount, CoordinateSystem> point;
+    bg::model::point<CoordinateType, DimensionCount, CoordinateSystem> point{};
 
 public:
 
-- 
2.43.0


From e1abb2bc6ea95e18c7ba7334968e2bd667a6c95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:17 +0000
Subject: [PATCH 43/52] fix: a local sidereal time just below 0 is not rounded
 up to 24 hours

---
 include/boost/astronomy/time/time_conversions.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/astronomy/time/time_conversions.hpp b/include/boost/astronomy/time/time_conversions.hpp
index 788923a..bcb1dd0 100644
--- a/include/boost/astronomy/time/time_conversions.hpp
+++ b/include/boost/astronomy/time/time_conversions.hpp
@@ -148,6 +148,7 @@ decimal_hour LST(double longitude, DIRECTION direction, boost::posix_time::ptime
     //Bring the result into the range 0 to 24 by adding or subtracting 24 if necessary.
     //This is the local sidereal time (LST).
     long_hours = long_hours - 24.0 * floor(long_hours/24.0);
+    if (long_hours >= 24.0) { long_hours = 0; } // a sum just below 0 is rounded up to 24
 
     return {long_hours};
 }
-- 
2.43.0


From e008e8475e91f7b24ec7692ebab01a0fe298448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:31 +0000
Subject: [PATCH 44/52] fix: a data size beyond what can be counted is refused
 instead of wrapping to a small one

---
 include/boost/astronomy/io/fits_reader.hpp | 40 +++++++++++++++++-----
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index a8a33e9..6b8d2f9 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -12,6 +12,8 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <deque>
 #include <string>
 #include <map>
+#include <ios>
+#include <limits>
 
 #include <boost/astronomy/io/header.hpp>
 
@@ -100,11 +102,9 @@ namespace boost { namespace astronomy { namespace io {
 
                 hdu_list.push_back(hdu_instance);
 
-                if (hdu_header.data_size() != 0) {
-
-                    auto total_elements = hdu_header.data_size();
-                    auto element_size = get_element_size_from_bitpix(hdu_header.bitpix());
-                    file_reader.set_reading_pos(file_reader.get_current_pos() + (total_elements*element_size));
+                auto total_bytes = data_bytes(hdu_header);
+                if (total_bytes != 0) {
+                    file_reader.set_reading_pos(file_reader.get_current_pos() + total_bytes);
                     file_reader.set_unit_end();
                 }
             }
@@ -193,18 +193,40 @@ namespace boost { namespace astronomy { namespace io {
             return hdu_header;
         }
 
+        /**
+         * @brief Returns the number of bytes taken by the data of a HDU
+         * @param[in] hdu_header Header information related to the HDU
+         * @throw file_reading_exception If no file can hold that many bytes
+        */
+        std::size_t data_bytes(const typename ExtensionsSupported::header_type& hdu_header) const {
+            const auto lengths = hdu_header.all_naxis();
+            if (lengths.empty()) { return 0; }
+            for (auto length : lengths) {
+                if (length == 0) { return 0; }
+            }
+
+            const auto largest = static_cast<std::size_t>(std::numeric_limits<std::streamoff>::max());
+            std::size_t total = get_element_size_from_bitpix(hdu_header.bitpix());
+            for (auto length : lengths) {
+                if (length > largest / total) {
+                    throw file_reading_exception("Data Size Too Large");
+                }
+                total *= length;
+            }
+            return total;
+        }
+
         /**
          * @brief Extracts the data associated with a perticular HDU from the FITS file
          * @param[in] hdu_header Header information related to the current HDU
         */
         std::string extract_data_buffer(typename ExtensionsSupported::header_type& hdu_header) {
-            if (hdu_header.data_size() == 0) {
+            auto total_bytes = data_bytes(hdu_header);
+            if (total_bytes == 0) {
                 return "";
             }
             else {
-                auto total_elements = hdu_header.data_size();
-                auto element_size = get_element_size_from_bitpix(hdu_header.bitpix());
-                std::string data_buffer = file_reader.read(total_elements * element_size);
+                std::string data_buffer = file_reader.read(total_bytes);
                 file_reader.set_unit_end();
                 return data_buffer;
             }
-- 
2.43.0


From ac55b9ca80a07f07b84e02a4a19902f9fa4e1ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:31 +0000
Subject: [PATCH 45/52] fix: a header with a negative number of axes or axis
 length is refused

---
 include/boost/astronomy/io/header.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/boost/astronomy/io/header.hpp b/include/boost/astronomy/io/header.hpp
index 8e5a9d7..abe11b1 100644
--- a/include/boost/astronomy/io/header.hpp
+++ b/include/boost/astronomy/io/header.hpp
@@ -117,13 +117,12 @@ public:
         }
 
         //setting naxis values
-        std::size_t total_dimensions = cards[key_index["NAXIS"]].template value<std::size_t>();
+        std::size_t total_dimensions = axis_value("NAXIS");
         naxis_.reserve(total_dimensions);
 
         for (std::size_t i = 1; i <= total_dimensions; i++)
         {
-            naxis_.emplace_back(cards[key_index["NAXIS" +
-                boost::lexical_cast<std::string>(i)]].template value<std::size_t>());
+            naxis_.emplace_back(axis_value("NAXIS" + boost::lexical_cast<std::string>(i)));
         }
 
     }
@@ -238,6 +237,18 @@ public:
 
     }
 
+private:
+    /**
+     * @brief   Gets the number of axes or the length of one, neither of which can be negative
+    */
+    std::size_t axis_value(std::string const& key)
+    {
+        auto const value = cards[key_index[key]].template value<long long>();
+        if (value < 0) { throw fits_exception(); }
+        return static_cast<std::size_t>(value);
+    }
+
+public:
     friend bool operator == (const header<CardPolicy>& lhs, const header<CardPolicy>& rhs);
 
 };
-- 
2.43.0


From b660bc469d9d29ca949a2709247939646b8d8b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:52 +0000
Subject: [PATCH 46/52] fix: fields whose sizes or starts wrap around do not
 fit the row of a table

---
 include/boost/astronomy/io/ascii_table.hpp  |  5 +++--
 include/boost/astronomy/io/binary_table.hpp | 13 ++++++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index c24ef02..f0899ae 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -257,11 +257,12 @@ private:
 
         // Every field has to lie inside of the row
         for (auto& field : this->col_metadata_) {
-            if (field.TBCOL() < 1 || field.TBCOL() - 1 + column_size(field.TFORM()) > total_characters_per_row) {
+            if (field.TBCOL() < 1 || field.TBCOL() - 1 > total_characters_per_row
+                || column_size(field.TFORM()) > total_characters_per_row - (field.TBCOL() - 1)) {
                 throw invalid_table_colum_format();
             }
         }
-        if (total_fields == 0 || data_buffer.size() < total_rows * total_characters_per_row) {
+        if (total_fields == 0 || (total_characters_per_row != 0 && data_buffer.size() / total_characters_per_row < total_rows)) {
             throw invalid_table_colum_format();
         }
 
diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 9fe6a48..b8df910 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -344,9 +344,16 @@ private:
         auto total_characters_per_row = this->hdu_header.naxis(1);
 
         // Fields are stored one after another and have to fill the row
-        std::size_t row_width = 0;
-        for (auto& field : this->col_metadata_) { row_width += column_size(field.TFORM()); }
-        if (row_width != total_characters_per_row || data_buffer.size() < total_rows * total_characters_per_row) {
+        std::size_t remaining = total_characters_per_row;
+        for (auto& field : this->col_metadata_) {
+            // Even bits are no more than 8 to a byte, which bounds the count before the size is taken
+            if (element_count(field.TFORM()) / 8 > remaining || column_size(field.TFORM()) > remaining) {
+                throw invalid_table_colum_format();
+            }
+            remaining -= column_size(field.TFORM());
+        }
+        if (remaining != 0 || total_fields == 0
+            || (total_characters_per_row != 0 && data_buffer.size() / total_characters_per_row < total_rows)) {
             throw invalid_table_colum_format();
         }
 
-- 
2.43.0


From d8a03f774db28fd9b7020127b7b7b74e2e570d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:49 +0000
Subject: [PATCH 47/52] fix: reading more elements than a binary field holds is
 an error, not what lies behind it

---
 .../astronomy/io/binary_data_converter.hpp    | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/binary_data_converter.hpp b/include/boost/astronomy/io/binary_data_converter.hpp
index d2829ae..81fcce7 100644
--- a/include/boost/astronomy/io/binary_data_converter.hpp
+++ b/include/boost/astronomy/io/binary_data_converter.hpp
@@ -18,6 +18,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include<boost/algorithm/string.hpp>
 #include<boost/cstdfloat.hpp>
 #include<boost/endian/conversion.hpp>
+#include<boost/astronomy/exception/fits_exception.hpp>
 #include<boost/astronomy/io/column.hpp>
 #include<boost/lexical_cast.hpp>
 #include<type_traits>
@@ -55,7 +56,19 @@ namespace boost{namespace astronomy{namespace io{
  */
     struct binary_data_converter {
 
-    
+        /**
+         * @brief  Checks that a field holds as many elements as are to be read from it
+         * @param[in] field         data in binary format
+         * @param[in] element_size  Size of an element in bytes
+         * @param[in] no_elements   Number of elements to be read
+         * @throw invalid_cast If the field has fewer bytes
+        */
+        static void require_elements(const std::string& field, std::size_t element_size, std::size_t no_elements) {
+            if (field.size() / element_size < no_elements) {
+                throw invalid_cast("Field is too short for the required Type");
+            }
+        }
+
         /**
          * @brief  Deserializes single element in binary form to its original type
          * @tparam NumericType Original Type in which element is to be returned
@@ -64,6 +77,7 @@ namespace boost{namespace astronomy{namespace io{
         */
         template <typename NumericType, typename AssumeType = NumericType>
         static NumericType element_to_numeric(const std::string& element) {
+            require_elements(element, sizeof(NumericType), 1);
             AssumeType temp = boost::endian::big_to_native(
                 *reinterpret_cast<const AssumeType*>(element.c_str()));
 
@@ -82,6 +96,7 @@ namespace boost{namespace astronomy{namespace io{
         template <typename NumericType, typename AssumeType = NumericType>
         static std::vector<NumericType> elements_to_numeric_collection(
             const std::string& elements, std::size_t no_elements) {
+            require_elements(elements, sizeof(NumericType), no_elements);
             std::vector<NumericType> values;
             values.resize(no_elements);
 
@@ -110,6 +125,7 @@ namespace boost{namespace astronomy{namespace io{
         */
         template <typename ComplexType, typename AssumeType = ComplexType>
         static std::complex<ComplexType> element_to_complex(const std::string& element) {
+            require_elements(element, sizeof(ComplexType) * 2, 1);
             AssumeType temp_real = boost::endian::big_to_native(
                 *reinterpret_cast<const AssumeType*>(element.c_str()));
 
@@ -135,6 +151,7 @@ namespace boost{namespace astronomy{namespace io{
         static std::vector<std::complex<ComplexType>> elements_to_complex_collection(
             const std::string& elements, std::size_t no_elements) {
 
+            require_elements(elements, sizeof(ComplexType) * 2, no_elements);
             std::vector<std::complex<ComplexType>> values;
             values.reserve(no_elements);
 
@@ -170,6 +187,7 @@ namespace boost{namespace astronomy{namespace io{
         template <typename ByteType>
         static std::vector<ByteType> elements_to_byte_collection(const std::string& elements,
             std::size_t no_elements) {
+            require_elements(elements, sizeof(ByteType), no_elements);
             return std::vector<ByteType>(elements.begin(),
                 elements.begin() + no_elements);
         }
@@ -312,6 +330,7 @@ namespace boost{namespace astronomy{namespace io{
     }
     template<>
     std::pair<boost::int32_t, boost::int32_t> binary_data_converter::deserialize_to(const std::string& element,int) {
+        require_elements(element, sizeof(boost::int32_t) * 2, 1);
         auto x = boost::endian::big_to_native(
             *reinterpret_cast<const boost::int32_t*>(element.c_str()));
         auto y = boost::endian::big_to_native(
@@ -320,6 +339,7 @@ namespace boost{namespace astronomy{namespace io{
     }
     template<>
     std::vector<std::pair<boost::int32_t, boost::int32_t>> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
+        require_elements(elements, sizeof(boost::int32_t) * 2, num_elements);
         std::vector<std::pair<boost::int32_t, boost::int32_t>> values;
         values.reserve(num_elements);
         for (std::size_t i = 0; i < num_elements; i++) {
-- 
2.43.0


From 24bee08789867a736b29d78ac60baf0254518d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:49 +0000
Subject: [PATCH 48/52] fix: an element of a column that was assigned to has
 the value assigned

---
 include/boost/astronomy/io/column_data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/astronomy/io/column_data.hpp b/include/boost/astronomy/io/column_data.hpp
index 84b0d0d..a93fe3b 100644
--- a/include/boost/astronomy/io/column_data.hpp
+++ b/include/boost/astronomy/io/column_data.hpp
@@ -52,6 +52,7 @@ public:
     */
     DataType operator = (DataType value)  {
         this->callback_ptr->update_value(index, value);
+        this->value = value;
         return value;
     }
 };
-- 
2.43.0


From 2b71339d22499360c8d3866cc084bdb28941169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:20 +0000
Subject: [PATCH 49/52] fix: assigning one element of a column to another edits
 the table

---
 include/boost/astronomy/io/column_data.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/boost/astronomy/io/column_data.hpp b/include/boost/astronomy/io/column_data.hpp
index a93fe3b..1200a65 100644
--- a/include/boost/astronomy/io/column_data.hpp
+++ b/include/boost/astronomy/io/column_data.hpp
@@ -55,6 +55,15 @@ public:
         this->value = value;
         return value;
     }
+
+    /**
+     * @brief Assigns the value of another element to this element, as the value itself would be
+    */
+    Proxy& operator = (const Proxy& other) {
+        *this = other.value;
+        return *this;
+    }
+    Proxy(const Proxy&) = default;
 };
 
 
-- 
2.43.0


From 23f2f9aa03f077f1f2ee345fc84403144c8950a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:27 +0000
Subject: [PATCH 50/52] fix: asking an HDU for pixels of another type than it
 has raises bad_get

---
 include/boost/astronomy/io/image_extension.hpp | 2 +-
 include/boost/astronomy/io/primary_hdu.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/image_extension.hpp b/include/boost/astronomy/io/image_extension.hpp
index 6a56b41..b43a853 100644
--- a/include/boost/astronomy/io/image_extension.hpp
+++ b/include/boost/astronomy/io/image_extension.hpp
@@ -66,7 +66,7 @@ public:
     */
 
     template<bitpix DT>
-    image<DT,Converter> get_data() const { return *boost::get<image<DT,Converter>>(&this->data); }
+    image<DT,Converter> get_data() const { return boost::get<image<DT,Converter>>(this->data); }
 
 
 
diff --git a/include/boost/astronomy/io/primary_hdu.hpp b/include/boost/astronomy/io/primary_hdu.hpp
index 30c16ac..a360a93 100644
--- a/include/boost/astronomy/io/primary_hdu.hpp
+++ b/include/boost/astronomy/io/primary_hdu.hpp
@@ -78,7 +78,7 @@ public:
     */
 
     template<bitpix DT>
-    image<DT,Converter> get_data() const { return *boost::get<image<DT,Converter>>(&this->data); }
+    image<DT,Converter> get_data() const { return boost::get<image<DT,Converter>>(this->data); }
 
     /**
      * @brief Writes the entire HDU ( header, image_data ) into the file
-- 
2.43.0


From 7f3710b828db86cbed0a938a6dd200423b28aac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:27 +0000
Subject: [PATCH 51/52] fix: maximum, minimum and median of an image without
 pixels are 0, as its mean is

---
 include/boost/astronomy/io/image.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/boost/astronomy/io/image.hpp b/include/boost/astronomy/io/image.hpp
index eee460a..25f4f5e 100644
--- a/include/boost/astronomy/io/image.hpp
+++ b/include/boost/astronomy/io/image.hpp
@@ -73,6 +73,11 @@ public:
     */
     PixelType max() const
     {
+        if (this->data_.size() == 0)
+        {
+            return 0;
+        }
+
         return this->data_.max();
     }
 
@@ -82,6 +87,11 @@ public:
     */
     PixelType min() const
     {
+        if (this->data_.size() == 0)
+        {
+            return 0;
+        }
+
         return this->data_.min();
     }
 
@@ -108,6 +118,11 @@ public:
     */
     PixelType median() const
     {
+        if (this->data_.size() == 0)
+        {
+            return 0;
+        }
+
         std::valarray<PixelType> sorted_array = this->data_;
         std::nth_element(std::begin(sorted_array),
             std::begin(sorted_array) + sorted_array.size() / 2, std::end(sorted_array));
-- 
2.43.0


From c459a04f87769dc5e3b0dd1dee341b546ea4eea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:19 +0000
Subject: [PATCH 52/52] fix: a column looked at as one type can be looked at as
 another

---
 include/boost/astronomy/io/ascii_table.hpp  | 11 +++++++----
 include/boost/astronomy/io/binary_table.hpp | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index f0899ae..c2fa95d 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -17,6 +17,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <string>
 #include <cmath>
 #include <numeric>
+#include <typeinfo>
 
 #include <boost/astronomy/io/column.hpp>
 #include <boost/astronomy/io/column_data.hpp>
@@ -97,14 +98,16 @@ public:
     template<typename ColDataType>
     column_view<ColDataType,Converter>& get_column(const std::string& column_name) const {
 
-        auto cache_entry = this->cached_columns.find(column_name);
+        // The same column may be looked at as more than one type
+        const std::string cache_key = std::string(typeid(ColDataType).name()) + ' ' + column_name;
+        auto cache_entry = this->cached_columns.find(cache_key);
 
         if (cache_entry != this->cached_columns.end()) {
-            return boost::get<column_view<ColDataType,Converter>>(this->cached_columns[column_name]);
+            return boost::get<column_view<ColDataType,Converter>>(this->cached_columns[cache_key]);
         }
         else {
-            this->cached_columns.emplace(column_name, this->template make_column_view<ColDataType,Converter>(column_name));
-            return boost::get<column_view<ColDataType,Converter>>(this->cached_columns[column_name]);
+            this->cached_columns.emplace(cache_key, this->template make_column_view<ColDataType,Converter>(column_name));
+            return boost::get<column_view<ColDataType,Converter>>(this->cached_columns[cache_key]);
         }
     }
 
diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index b8df910..acee338 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -14,6 +14,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <algorithm>
 #include <complex>
 #include <utility>
+#include <typeinfo>
 
 #include <boost/lexical_cast.hpp>
 #include <boost/algorithm/string/trim.hpp>
@@ -111,14 +112,16 @@ public:
     */
     template<typename ColDataType>
     column_view<ColDataType, Converter>& get_column(const std::string& column_name) {
-        auto cache_entry = this->cached_columns.find(column_name);
+        // The same column may be looked at as more than one type
+        const std::string cache_key = std::string(typeid(ColDataType).name()) + ' ' + column_name;
+        auto cache_entry = this->cached_columns.find(cache_key);
 
         if (cache_entry != this->cached_columns.end()) {
-            return boost::get<column_view<ColDataType, Converter>>(this->cached_columns[column_name]);
+            return boost::get<column_view<ColDataType, Converter>>(this->cached_columns[cache_key]);
         }
         else {
-                this->cached_columns.emplace(column_name, this->template make_column_view<ColDataType, Converter>(column_name));
-                return boost::get<column_view<ColDataType, Converter>>(this->cached_columns[column_name]);
+                this->cached_columns.emplace(cache_key, this->template make_column_view<ColDataType, Converter>(column_name));
+                return boost::get<column_view<ColDataType, Converter>>(this->cached_columns[cache_key]);
         }
     }
 
-- 
2.43.0

