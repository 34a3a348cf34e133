From 02da9f3dbba9258f678d98ca8f88e7962f046e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:13 +0000
Subject: [PATCH 01/36] fix: keep C++ exceptions inside the libCZIAPI functions

Twelve C-API functions executed code that can throw (option/JSON parsing,
object creation, GetRawData, GetBytesPerPixel, operator new) outside of their
try-block, so that a C++ exception could propagate into the C caller.
---
 Src/libCZIAPI/src/libCZIApi.cpp | 263 +++++++++++++++++++-------------
 1 file changed, 157 insertions(+), 106 deletions(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 1fab63d..6e83d75 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -158,14 +158,21 @@ LibCZIApiErrorCode libCZI_GetLibCZIBuildInformation(LibCZIBuildInformationIntero
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
 
-    BuildInformation info;
-    GetLibCZIBuildInformation(info);
-    build_info->compilerIdentification = ParameterHelpers::AllocString(info.compilerIdentification);
-    build_info->repositoryUrl = ParameterHelpers::AllocString(info.repositoryUrl);
-    build_info->repositoryBranch = ParameterHelpers::AllocString(info.repositoryBranch);
-    build_info->repositoryTag = ParameterHelpers::AllocString(info.repositoryTag);
+    try
+    {
+        BuildInformation info;
+        GetLibCZIBuildInformation(info);
+        build_info->compilerIdentification = ParameterHelpers::AllocString(info.compilerIdentification);
+        build_info->repositoryUrl = ParameterHelpers::AllocString(info.repositoryUrl);
+        build_info->repositoryBranch = ParameterHelpers::AllocString(info.repositoryBranch);
+        build_info->repositoryTag = ParameterHelpers::AllocString(info.repositoryTag);
 
-    return LibCZIApi_ErrorCode_OK;
+        return LibCZIApi_ErrorCode_OK;
+    }
+    catch (const std::exception&)
+    {
+        return LibCZIApi_ErrorCode_UnspecifiedError;
+    }
 }
 
 LibCZIApiErrorCode libCZI_CreateReader(CziReaderObjectHandle* reader_object)
@@ -177,16 +184,23 @@ LibCZIApiErrorCode libCZI_CreateReader(CziReaderObjectHandle* reader_object)
 
     *reader_object = kInvalidObjectHandle;
 
-    auto reader = CreateCZIReader();
-    if (!reader)
+    try
     {
-        return LibCZIApi_ErrorCode_OutOfMemory;
-    }
+        auto reader = CreateCZIReader();
+        if (!reader)
+        {
+            return LibCZIApi_ErrorCode_OutOfMemory;
+        }
 
-    auto shared_czi_reader_wrapping_object = new SharedPtrWrapper<ICZIReader>{ reader };
-    *reader_object = reinterpret_cast<CziReaderObjectHandle>(shared_czi_reader_wrapping_object);
+        auto shared_czi_reader_wrapping_object = new SharedPtrWrapper<ICZIReader>{ reader };
+        *reader_object = reinterpret_cast<CziReaderObjectHandle>(shared_czi_reader_wrapping_object);
 
-    return LibCZIApi_ErrorCode_OK;
+        return LibCZIApi_ErrorCode_OK;
+    }
+    catch (const std::exception&)
+    {
+        return LibCZIApi_ErrorCode_UnspecifiedError;
+    }
 }
 
 LibCZIApiErrorCode libCZI_ReaderOpen(CziReaderObjectHandle reader_object, const ReaderOpenInfoInterop* open_info)
@@ -545,17 +559,24 @@ LibCZIApiErrorCode libCZI_GetStreamClassInfo(std::int32_t index, InputStreamClas
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
 
-    StreamsFactory::StreamClassInfo stream_class_info;
-    const bool b = StreamsFactory::GetStreamInfoForClass(index, stream_class_info);
-    if (!b)
+    try
     {
-        return LibCZIApi_ErrorCode_InvalidArgument;
-    }
+        StreamsFactory::StreamClassInfo stream_class_info;
+        const bool b = StreamsFactory::GetStreamInfoForClass(index, stream_class_info);
+        if (!b)
+        {
+            return LibCZIApi_ErrorCode_InvalidArgument;
+        }
 
-    input_stream_class_info->name = ParameterHelpers::AllocString(stream_class_info.class_name);
-    input_stream_class_info->description = ParameterHelpers::AllocString(stream_class_info.short_description);
+        input_stream_class_info->name = ParameterHelpers::AllocString(stream_class_info.class_name);
+        input_stream_class_info->description = ParameterHelpers::AllocString(stream_class_info.short_description);
 
-    return LibCZIApi_ErrorCode_OK;
+        return LibCZIApi_ErrorCode_OK;
+    }
+    catch (const std::exception&)
+    {
+        return LibCZIApi_ErrorCode_UnspecifiedError;
+    }
 }
 
 LibCZIApiErrorCode libCZI_CreateInputStream(const char* stream_class_name, const char* creation_property_bag, const char* stream_identifier, InputStreamObjectHandle* stream_object)
@@ -565,20 +586,20 @@ LibCZIApiErrorCode libCZI_CreateInputStream(const char* stream_class_name, const
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
 
-    StreamsFactory::CreateStreamInfo create_stream_info;
-
-    if (creation_property_bag != nullptr && *creation_property_bag != '\0')
+    try
     {
-        if (!ParameterHelpers::TryParseInputStreamCreationPropertyBag(creation_property_bag, &create_stream_info.property_bag))
+        StreamsFactory::CreateStreamInfo create_stream_info;
+
+        if (creation_property_bag != nullptr && *creation_property_bag != '\0')
         {
-            return LibCZIApi_ErrorCode_InvalidArgument;
+            if (!ParameterHelpers::TryParseInputStreamCreationPropertyBag(creation_property_bag, &create_stream_info.property_bag))
+            {
+                return LibCZIApi_ErrorCode_InvalidArgument;
+            }
         }
-    }
 
-    create_stream_info.class_name = stream_class_name;
+        create_stream_info.class_name = stream_class_name;
 
-    try
-    {
         shared_ptr<libCZI::IStream> stream = StreamsFactory::CreateStream(create_stream_info, stream_identifier);
         if (!stream)
         {
@@ -765,15 +786,22 @@ LibCZIApiErrorCode libCZI_CreateInputStreamFromExternal(const ExternalInputStrea
     }
 
     *stream_object = kInvalidObjectHandle;
-    auto stream = make_shared<InputStreamWrapper>(*external_input_stream_struct);
-    if (!stream)
+    try
+    {
+        auto stream = make_shared<InputStreamWrapper>(*external_input_stream_struct);
+        if (!stream)
+        {
+            return LibCZIApi_ErrorCode_UnspecifiedError;
+        }
+
+        auto shared_stream_wrapping_object = new SharedPtrWrapper<IStream>{ stream };
+        *stream_object = reinterpret_cast<InputStreamObjectHandle>(shared_stream_wrapping_object);
+        return LibCZIApi_ErrorCode_OK;
+    }
+    catch (const std::exception&)
     {
         return LibCZIApi_ErrorCode_UnspecifiedError;
     }
-
-    auto shared_stream_wrapping_object = new SharedPtrWrapper<IStream>{ stream };
-    *stream_object = reinterpret_cast<InputStreamObjectHandle>(shared_stream_wrapping_object);
-    return LibCZIApi_ErrorCode_OK;
 }
 
 LibCZIApiErrorCode libCZI_ReleaseInputStream(InputStreamObjectHandle stream_object)
@@ -1073,32 +1101,39 @@ LibCZIApiErrorCode libCZI_BitmapCopyTo(BitmapObjectHandle bitmap_object, std::ui
         return LibCZIApi_ErrorCode_InvalidHandle;
     }
 
-    const auto extent = shared_bitmap_wrapping_object->shared_ptr_->GetSize();
-    if (width != extent.w || height != extent.h)
+    try
     {
-        return LibCZIApi_ErrorCode_InvalidArgument;
-    }
+        const auto extent = shared_bitmap_wrapping_object->shared_ptr_->GetSize();
+        if (width != extent.w || height != extent.h)
+        {
+            return LibCZIApi_ErrorCode_InvalidArgument;
+        }
 
-    if (shared_bitmap_wrapping_object->shared_ptr_->GetPixelType() != static_cast<PixelType>(pixel_type))
-    {
-        return LibCZIApi_ErrorCode_InvalidArgument;
-    }
+        if (shared_bitmap_wrapping_object->shared_ptr_->GetPixelType() != static_cast<PixelType>(pixel_type))
+        {
+            return LibCZIApi_ErrorCode_InvalidArgument;
+        }
 
-    size_t line_length = static_cast<size_t>(Utils::GetBytesPerPixel(static_cast<PixelType>(pixel_type))) * width;
-    if (stride < line_length)
-    {
-        return LibCZIApi_ErrorCode_InvalidArgument;
-    }
+        size_t line_length = static_cast<size_t>(Utils::GetBytesPerPixel(static_cast<PixelType>(pixel_type))) * width;
+        if (stride < line_length)
+        {
+            return LibCZIApi_ErrorCode_InvalidArgument;
+        }
 
-    ScopedBitmapLockerSP lckBm{ shared_bitmap_wrapping_object->shared_ptr_ };
-    for (std::uint32_t y = 0; y < height; ++y)
+        ScopedBitmapLockerSP lckBm{ shared_bitmap_wrapping_object->shared_ptr_ };
+        for (std::uint32_t y = 0; y < height; ++y)
+        {
+            const std::uint8_t* ptrSourceLine = static_cast<const std::uint8_t*>(lckBm.ptrDataRoi) + y * static_cast<size_t>(lckBm.stride);
+            std::uint8_t* ptrDestinationLine = static_cast<std::uint8_t*>(ptr) + y * static_cast<size_t>(stride);
+            memcpy(ptrDestinationLine, ptrSourceLine, line_length);
+        }
+
+        return LibCZIApi_ErrorCode_OK;
+    }
+    catch (const std::exception&)
     {
-        const std::uint8_t* ptrSourceLine = static_cast<const std::uint8_t*>(lckBm.ptrDataRoi) + y * static_cast<size_t>(lckBm.stride);
-        std::uint8_t* ptrDestinationLine = static_cast<std::uint8_t*>(ptr) + y * static_cast<size_t>(stride);
-        memcpy(ptrDestinationLine, ptrSourceLine, line_length);
+        return LibCZIApi_ErrorCode_UnspecifiedError;
     }
-
-    return LibCZIApi_ErrorCode_OK;
 }
 
 //****************************************************************************************************
@@ -1115,34 +1150,41 @@ LibCZIApiErrorCode libCZI_MetadataSegmentGetMetadataAsXml(MetadataSegmentObjectH
         return LibCZIApi_ErrorCode_InvalidHandle;
     }
 
-    size_t size;
-    auto data = shared_czi_metadata_segment_wrapping_object->shared_ptr_->GetRawData(IMetadataSegment::XmlMetadata, &size);
-    if (!data)
+    try
     {
-        return LibCZIApi_ErrorCode_UnspecifiedError;
-    }
+        size_t size;
+        auto data = shared_czi_metadata_segment_wrapping_object->shared_ptr_->GetRawData(IMetadataSegment::XmlMetadata, &size);
+        if (!data)
+        {
+            return LibCZIApi_ErrorCode_UnspecifiedError;
+        }
 
-    // we want to ensure that the string is null-terminated, just in case - so if the data is not null-terminated, we will allocate
-    //  one byte more
-    size_t size_to_allocate = size;
-    if (static_cast<const uint8_t*>(data.get())[size - 1] != '\0')
-    {
-        ++size_to_allocate;
-    }
+        // we want to ensure that the string is null-terminated, just in case - so if the data is not null-terminated, we will allocate
+        //  one byte more
+        size_t size_to_allocate = size;
+        if (static_cast<const uint8_t*>(data.get())[size - 1] != '\0')
+        {
+            ++size_to_allocate;
+        }
 
-    uint8_t* allocated_memory = static_cast<uint8_t*>(ParameterHelpers::AllocateMemory(size_to_allocate));
-    if (allocated_memory == nullptr)
-    {
-        return LibCZIApi_ErrorCode_OutOfMemory;
-    }
+        uint8_t* allocated_memory = static_cast<uint8_t*>(ParameterHelpers::AllocateMemory(size_to_allocate));
+        if (allocated_memory == nullptr)
+        {
+            return LibCZIApi_ErrorCode_OutOfMemory;
+        }
 
-    memcpy(allocated_memory, data.get(), size);
-    allocated_memory[size_to_allocate - 1] = '\0';
+        memcpy(allocated_memory, data.get(), size);
+        allocated_memory[size_to_allocate - 1] = '\0';
 
-    metadata_as_xml_interop->data = allocated_memory;
-    metadata_as_xml_interop->size = size;
+        metadata_as_xml_interop->data = allocated_memory;
+        metadata_as_xml_interop->size = size;
 
-    return LibCZIApi_ErrorCode_OK;
+        return LibCZIApi_ErrorCode_OK;
+    }
+    catch (const std::exception&)
+    {
+        return LibCZIApi_ErrorCode_UnspecifiedError;
+    }
 }
 
 LibCZIApiErrorCode libCZI_MetadataSegmentGetCziDocumentInfo(MetadataSegmentObjectHandle metadata_segment_object, CziDocumentInfoHandle* czi_document_info_handle)
@@ -1569,15 +1611,22 @@ LibCZIApiErrorCode libCZI_CreateOutputStreamFromExternal(const ExternalOutputStr
     }
 
     *output_stream_object = kInvalidObjectHandle;
-    auto stream = make_shared<OutputStreamWrapper>(*external_output_stream_struct);
-    if (!stream)
+    try
+    {
+        auto stream = make_shared<OutputStreamWrapper>(*external_output_stream_struct);
+        if (!stream)
+        {
+            return LibCZIApi_ErrorCode_UnspecifiedError;
+        }
+
+        auto shared_output_stream_wrapping_object = new SharedPtrWrapper<IOutputStream>{ stream };
+        *output_stream_object = reinterpret_cast<OutputStreamObjectHandle>(shared_output_stream_wrapping_object);
+        return LibCZIApi_ErrorCode_OK;
+    }
+    catch (const std::exception&)
     {
         return LibCZIApi_ErrorCode_UnspecifiedError;
     }
-
-    auto shared_output_stream_wrapping_object = new SharedPtrWrapper<IOutputStream>{ stream };
-    *output_stream_object = reinterpret_cast<OutputStreamObjectHandle>(shared_output_stream_wrapping_object);
-    return LibCZIApi_ErrorCode_OK;
 }
 
 //****************************************************************************************************
@@ -1591,10 +1640,11 @@ LibCZIApiErrorCode libCZI_CreateWriter(CziWriterObjectHandle* writer_object, con
 
     *writer_object = kInvalidObjectHandle;
 
-    CZIWriterOptions writer_options;
-    const bool writer_options_valid = ParameterHelpers::TryParseCZIWriterOptions(options, writer_options);
     try
     {
+        CZIWriterOptions writer_options;
+        const bool writer_options_valid = ParameterHelpers::TryParseCZIWriterOptions(options, writer_options);
+
         const auto writer = writer_options_valid ? libCZI::CreateCZIWriter(&writer_options) : libCZI::CreateCZIWriter();
         if (!writer)
         {
@@ -1672,10 +1722,11 @@ LibCZIApiErrorCode libCZI_WriterCreate(CziWriterObjectHandle writer_object, Outp
         return LibCZIApi_ErrorCode_InvalidHandle;
     }
 
-    std::shared_ptr<libCZI::ICziWriterInfo> czi_writer_info;
-    const bool czi_writer_info_valid = ParameterHelpers::TryParseCZIWriterInfo(parameters, czi_writer_info);
     try
     {
+        std::shared_ptr<libCZI::ICziWriterInfo> czi_writer_info;
+        const bool czi_writer_info_valid = ParameterHelpers::TryParseCZIWriterInfo(parameters, czi_writer_info);
+
         if (czi_writer_info_valid)
         {
             shared_writer_wrapping_object->shared_ptr_->Create(shared_output_stream_wrapping_object->shared_ptr_, czi_writer_info);
@@ -1922,12 +1973,12 @@ LibCZIApiErrorCode libCZI_SingleChannelTileAccessorGet(SingleChannelScalingTileA
         return LibCZIApi_ErrorCode_InvalidHandle;
     }
 
-    IntRect libczi_roi{ roi->x, roi->y, roi->w, roi->h };
-    const auto libczi_coordinate = ParameterHelpers::ConvertCoordinateInteropToDimCoordinate(*coordinate);
-    const auto libczi_options = ParameterHelpers::ConvertSingleChannelScalingTileAccessorOptionsInteropToLibCZI(options);
-
     try
     {
+        IntRect libczi_roi{ roi->x, roi->y, roi->w, roi->h };
+        const auto libczi_coordinate = ParameterHelpers::ConvertCoordinateInteropToDimCoordinate(*coordinate);
+        const auto libczi_options = ParameterHelpers::ConvertSingleChannelScalingTileAccessorOptionsInteropToLibCZI(options);
+
         auto result_bitmap = shared_accessor_wrapping_object->shared_ptr_->Get(libczi_roi, &libczi_coordinate, zoom, &libczi_options);
 
         auto shared_bitmap_wrapping_object = new SharedPtrWrapper<IBitmapData>{ result_bitmap };
@@ -1977,23 +2028,23 @@ LibCZIApiErrorCode libCZI_CompositorDoMultiChannelComposition(std::int32_t chann
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
 
-    unique_ptr<IBitmapData* []> source_bitmaps_data{ new IBitmapData * [channelCount] };
-    unique_ptr<Compositors::ChannelInfo[]> channel_info_data{ new Compositors::ChannelInfo[channelCount] };
-
-    for (int i = 0; i < channelCount; ++i)
+    try
     {
-        auto shared_bitmap_wrapping_object = reinterpret_cast<SharedPtrWrapper<IBitmapData>*>(source_bitmaps[i]);
-        if (!shared_bitmap_wrapping_object->IsValid())
+        unique_ptr<IBitmapData* []> source_bitmaps_data{ new IBitmapData * [channelCount] };
+        unique_ptr<Compositors::ChannelInfo[]> channel_info_data{ new Compositors::ChannelInfo[channelCount] };
+
+        for (int i = 0; i < channelCount; ++i)
         {
-            return LibCZIApi_ErrorCode_InvalidHandle;
-        }
+            auto shared_bitmap_wrapping_object = reinterpret_cast<SharedPtrWrapper<IBitmapData>*>(source_bitmaps[i]);
+            if (!shared_bitmap_wrapping_object->IsValid())
+            {
+                return LibCZIApi_ErrorCode_InvalidHandle;
+            }
 
-        source_bitmaps_data[i] = shared_bitmap_wrapping_object->shared_ptr_.get();
-        channel_info_data[i] = ParameterHelpers::ConvertCompositionChannelInfoInteropToChannelInfo(channel_info + i);
-    }
+            source_bitmaps_data[i] = shared_bitmap_wrapping_object->shared_ptr_.get();
+            channel_info_data[i] = ParameterHelpers::ConvertCompositionChannelInfoInteropToChannelInfo(channel_info + i);
+        }
 
-    try
-    {
         auto composed_bitmap = Compositors::ComposeMultiChannel_Bgr24(channelCount, source_bitmaps_data.get(), channel_info_data.get());
         auto shared_bitmap_wrapping_object = new SharedPtrWrapper<IBitmapData>{ composed_bitmap };
         *bitmap_object = reinterpret_cast<BitmapObjectHandle>(shared_bitmap_wrapping_object);
-- 
2.43.0


From a34994eb1d934d4cb0f899def86e547c8503353a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:25 +0000
Subject: [PATCH 02/36] fix: validate out-pointers and handles in four
 libCZIAPI functions

libCZI_ReaderReadAttachment combined its checks with && (so neither was
effective), libCZI_ReaderGetMetadataSegment and
libCZI_MetadataSegmentGetMetadataAsXml did not check their out-pointer, and
libCZI_CompositorDoMultiChannelComposition dereferenced invalid (null) bitmap
handles.
---
 Src/libCZIAPI/src/libCZIApi.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 6e83d75..98eb7f5 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -403,7 +403,7 @@ LibCZIApiErrorCode libCZI_ReaderReadSubBlock(CziReaderObjectHandle reader_object
 
 LibCZIApiErrorCode libCZI_ReaderGetMetadataSegment(CziReaderObjectHandle reader_object, MetadataSegmentObjectHandle* metadata_segment_object)
 {
-    if (reader_object == kInvalidObjectHandle)
+    if (reader_object == kInvalidObjectHandle || metadata_segment_object == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
@@ -489,7 +489,7 @@ LibCZIApiErrorCode libCZI_ReaderGetAttachmentInfoFromDirectory(CziReaderObjectHa
 
 LibCZIApiErrorCode libCZI_ReaderReadAttachment(CziReaderObjectHandle reader_object, std::int32_t index, AttachmentObjectHandle* attachment_object)
 {
-    if (reader_object == kInvalidObjectHandle && attachment_object == nullptr)
+    if (reader_object == kInvalidObjectHandle || attachment_object == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
@@ -1139,7 +1139,7 @@ LibCZIApiErrorCode libCZI_BitmapCopyTo(BitmapObjectHandle bitmap_object, std::ui
 //****************************************************************************************************
 LibCZIApiErrorCode libCZI_MetadataSegmentGetMetadataAsXml(MetadataSegmentObjectHandle metadata_segment_object, MetadataAsXmlInterop* metadata_as_xml_interop)
 {
-    if (metadata_segment_object == kInvalidObjectHandle)
+    if (metadata_segment_object == kInvalidObjectHandle || metadata_as_xml_interop == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
@@ -2035,6 +2035,11 @@ LibCZIApiErrorCode libCZI_CompositorDoMultiChannelComposition(std::int32_t chann
 
         for (int i = 0; i < channelCount; ++i)
         {
+            if (source_bitmaps[i] == kInvalidObjectHandle)
+            {
+                return LibCZIApi_ErrorCode_InvalidArgument;
+            }
+
             auto shared_bitmap_wrapping_object = reinterpret_cast<SharedPtrWrapper<IBitmapData>*>(source_bitmaps[i]);
             if (!shared_bitmap_wrapping_object->IsValid())
             {
-- 
2.43.0


From 824365e4b2070990f992f3622fc0b216ac35b08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:25 +0000
Subject: [PATCH 03/36] fix: use distinct magic values for attachment and
 document-info handles

Both wrappers used 0x3A4A3D7A, so a document-info handle was accepted as an
attachment handle (and vice versa), resulting in type confusion.
---
 Src/libCZIAPI/src/sharedptrwrapper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/sharedptrwrapper.h b/Src/libCZIAPI/src/sharedptrwrapper.h
index e2af8c5..2d8c61f 100644
--- a/Src/libCZIAPI/src/sharedptrwrapper.h
+++ b/Src/libCZIAPI/src/sharedptrwrapper.h
@@ -19,7 +19,7 @@ constexpr uint32_t kMagicIAttachment = 0x3A4A3D7Au;
 constexpr uint32_t kMagicIOutputStream = 0x8020FAA3u;
 constexpr uint32_t kMagicICziWriter = 0xF8384829u;
 constexpr uint32_t kMagicISingleChannelScalingTileAccessor = 0xE34C94D7u;
-constexpr uint32_t kMagicICziMultiDimensionDocumentInfo = 0x3A4A3D7Au;
+constexpr uint32_t kMagicICziMultiDimensionDocumentInfo = 0x5D91C2B6u;
 constexpr uint32_t kMagicIDisplaySettings = 0xE67C5A4Cu;
 constexpr uint32_t kMagicIChannelDisplaySetting = 0x88265932u;
 
-- 
2.43.0


From 8d557575d381aea808799c2cbfcb8e7659d223ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:10 +0000
Subject: [PATCH 04/36] fix: validate DimensionCount before using it to size a
 read

A negative DimensionCount in a sub-block segment, or any DimensionCount
outside of 0..MAXDIMENSIONS in a sub-block directory entry, resulted in data
from the file being copied beyond the end of a structure on the stack.
---
 Src/libCZI/CziParse.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 76fa3e5..88f7938 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -288,7 +288,7 @@ using namespace libCZI::detail;
         sbd.mIndex = (std::numeric_limits<int>::max)();
         memcpy(sbd.spare, subBlckSegment.data.entryDV._spare, sizeof(sbd.spare));
 
-        if (subBlckSegment.data.entryDV.DimensionCount > MAXDIMENSIONS)
+        if (subBlckSegment.data.entryDV.DimensionCount < 0 || subBlckSegment.data.entryDV.DimensionCount > MAXDIMENSIONS)
         {
             stringstream ss;
             ss << "'DimensionCount' was found to be " << subBlckSegment.data.entryDV.DimensionCount << ", where the maximum allowed is " << MAXDIMENSIONS << ".";
@@ -501,8 +501,12 @@ using namespace libCZI::detail;
             funcRead(4 + 8 + 4 + 4 + 6 + 4, reinterpret_cast<uint8_t*>(&dv) + 2);
             ConvertToHostByteOrder::Convert(&dv);
 
+            if (dv.DimensionCount < 0 || dv.DimensionCount > MAXDIMENSIONS)
+            {
+                CCZIParse::ThrowIllegalData("'DimensionCount' in the SubBlockDirectory is out-of-range");
+            }
+
             int sizeToRead = dv.DimensionCount * sizeof(DimensionEntryDV);
-            // TODO: check for max size etc.
             funcRead(sizeToRead, &dv.DimensionEntries[0]);
             ConvertToHostByteOrder::Convert(&dv.DimensionEntries[0], dv.DimensionCount);
 
-- 
2.43.0


From 473b6510a80888a006d0a1e4011f5fb7cdb52dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:10 +0000
Subject: [PATCH 05/36] fix: compare the number of bytes read without
 truncating it to 32 bits

Sub-block and attachment data larger than 2GB was always rejected with 'not
enough data read', because the 64-bit count was cast to int32_t.
---
 Src/libCZI/CziParse.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 88f7938..bc698dc 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -387,7 +387,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading FileHeaderSegment", offset + lengthSubblockSegmentData + sizeof(SegmentHeader), subBlckSegment.data.MetadataSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != subBlckSegment.data.MetadataSize)
+        if (bytesRead != static_cast<uint64_t>(subBlckSegment.data.MetadataSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + lengthSubblockSegmentData + sizeof(SegmentHeader), subBlckSegment.data.MetadataSize, bytesRead);
         }
@@ -404,7 +404,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading FileHeaderSegment", offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize, subBlckSegment.data.DataSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != subBlckSegment.data.DataSize)
+        if (bytesRead != static_cast<uint64_t>(subBlckSegment.data.DataSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize, subBlckSegment.data.DataSize, bytesRead);
         }
@@ -421,7 +421,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading FileHeaderSegment", offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize + subBlckSegment.data.DataSize, subBlckSegment.data.AttachmentSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != subBlckSegment.data.AttachmentSize)
+        if (bytesRead != static_cast<uint64_t>(subBlckSegment.data.AttachmentSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize + subBlckSegment.data.DataSize, subBlckSegment.data.AttachmentSize, bytesRead);
         }
@@ -476,7 +476,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading AttachmentSegment", offset + 256 + sizeof(SegmentHeader), attchmntSegment.data.DataSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != attchmntSegment.data.DataSize)
+        if (bytesRead != static_cast<uint64_t>(attchmntSegment.data.DataSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + 256 + sizeof(SegmentHeader), attchmntSegment.data.DataSize, bytesRead);
         }
@@ -689,7 +689,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading MetaDataSegment", offset + sizeof(metadataSegment), metadataSegment.data.XmlSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != metadataSegment.data.XmlSize)
+        if (bytesRead != static_cast<uint64_t>(metadataSegment.data.XmlSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + sizeof(metadataSegment), metadataSegment.data.XmlSize, bytesRead);
         }
@@ -706,7 +706,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading MetaDataSegment", offset + sizeof(metadataSegment) + metadataSegment.data.XmlSize, metadataSegment.data.AttachmentSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != metadataSegment.data.AttachmentSize)
+        if (bytesRead != static_cast<uint64_t>(metadataSegment.data.AttachmentSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + sizeof(metadataSegment) + metadataSegment.data.XmlSize, metadataSegment.data.AttachmentSize, bytesRead);
         }
-- 
2.43.0


From 7bd086c130b37b161c3c932f777579f94ba2bef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:38 +0000
Subject: [PATCH 06/36] fix: reject negative sizes and failed allocations when
 reading segments

With a negative size or a failing allocation the reader skipped reading the
data, but still reported the (bogus) size together with a null pointer; for the
directories the data was read to a null pointer.
---
 Src/libCZI/CziParse.cpp | 63 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 57 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index bc698dc..21c6411 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -8,12 +8,39 @@
 #include <cassert>
 #include <cstddef>
 #include <cstdint>
+#include <new>
 #include "Site.h"
 
 using namespace std;
 using namespace libCZI;
 using namespace libCZI::detail;
 
+namespace
+{
+    /// Allocate the buffer for a part of a segment whose size was given in the file. For a size of zero, a nullptr is returned. If
+    /// the allocation fails, an exception is thrown - so that we never report a non-zero size without having the data for it.
+    ///
+    /// \param   allocateInfo    The allocation functions to use.
+    /// \param   size            The size in bytes (must not be negative).
+    ///
+    /// \returns The newly allocated buffer (or nullptr if the size is zero).
+    void* AllocateBufferForSegmentPart(const CCZIParse::SubBlockStorageAllocate& allocateInfo, std::int64_t size)
+    {
+        if (size == 0)
+        {
+            return nullptr;
+        }
+
+        void* buffer = allocateInfo.alloc(static_cast<size_t>(size));
+        if (buffer == nullptr)
+        {
+            throw std::bad_alloc();
+        }
+
+        return buffer;
+    }
+}
+
 /*static*/const std::uint8_t CCZIParse::FILEHDRMAGIC[16] = { 'Z','I','S','R','A','W','F','I','L','E','\0','\0','\0','\0','\0','\0' };
 /*static*/const std::uint8_t CCZIParse::SUBBLKDIRMAGIC[16] = { 'Z','I','S','R','A','W','D','I','R','E','C','T','O','R','Y','\0' };
 /*static*/const std::uint8_t CCZIParse::SUBBLKMAGIC[16] = { 'Z','I','S','R','A','W','S','U','B','B','L','O','C','K' ,'\0','\0' };
@@ -116,6 +143,11 @@ using namespace libCZI::detail;
 
     // now read the used-size from stream
     std::unique_ptr<void, decltype(free)*> pBuffer(malloc((size_t)subBlkDirSize), free);
+    if (!pBuffer && subBlkDirSize > 0)
+    {
+        throw std::bad_alloc();
+    }
+
     try
     {
         str->Read(offset + sizeof(subBlckDirSegment), pBuffer.get(), subBlkDirSize, &bytesRead);
@@ -210,6 +242,10 @@ using namespace libCZI::detail;
         // now read the AttachmentEntries
         const uint64_t attachmentEntriesSize = static_cast<uint64_t>(attachmentDirSegment.data.EntryCount) * sizeof(AttachmentEntryA1);
         unique_ptr<AttachmentEntryA1, decltype(free)*> pBuffer(static_cast<AttachmentEntryA1*>(malloc((size_t)attachmentEntriesSize)), free);
+        if (!pBuffer)
+        {
+            throw std::bad_alloc();
+        }
 
         // now read the attachment-entries
         try
@@ -368,11 +404,16 @@ using namespace libCZI::detail;
     //  the reserved (minimal) size here
     lengthSubblockSegmentData = max(lengthSubblockSegmentData, (uint32_t)SIZE_SUBBLOCKDATA_MINIMUM);
 
+    if (subBlckSegment.data.MetadataSize < 0 || subBlckSegment.data.DataSize < 0 || subBlckSegment.data.AttachmentSize < 0)
+    {
+        CCZIParse::ThrowIllegalData(offset, "Invalid (negative) size in SubBlock-segment");
+    }
+
     // TODO: if subBlckSegment.data.DataSize > size_t (=4GB for 32Bit) then bail out gracefully
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
-    std::unique_ptr<void, decltype(deleter)> pMetadataBuffer(subBlckSegment.data.MetadataSize > 0 ? allocateInfo.alloc(subBlckSegment.data.MetadataSize) : nullptr, deleter);
-    std::unique_ptr<void, decltype(deleter)> pDataBuffer(subBlckSegment.data.DataSize > 0 ? allocateInfo.alloc(static_cast<size_t>(subBlckSegment.data.DataSize)) : nullptr, deleter);
-    std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(subBlckSegment.data.AttachmentSize > 0 ? allocateInfo.alloc(subBlckSegment.data.AttachmentSize) : nullptr, deleter);
+    std::unique_ptr<void, decltype(deleter)> pMetadataBuffer(AllocateBufferForSegmentPart(allocateInfo, subBlckSegment.data.MetadataSize), deleter);
+    std::unique_ptr<void, decltype(deleter)> pDataBuffer(AllocateBufferForSegmentPart(allocateInfo, subBlckSegment.data.DataSize), deleter);
+    std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(AllocateBufferForSegmentPart(allocateInfo, subBlckSegment.data.AttachmentSize), deleter);
 
     // TODO: now get the information from the SubBlockDirectoryEntryDV/DE structure, and figure out their size
     // TODO: compare this information against the information from the SubBlock-directory
@@ -461,9 +502,14 @@ using namespace libCZI::detail;
         CCZIParse::ThrowIllegalData(offset, "Invalid Attachment-magic");
     }
 
+    if (attchmntSegment.data.DataSize < 0)
+    {
+        CCZIParse::ThrowIllegalData(offset, "Invalid (negative) size in Attachment-segment");
+    }
+
     // TODO: if subBlckSegment.data.DataSize > size_t (=4GB for 32Bit) then bail out gracefully
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
-    std::unique_ptr<void, decltype(deleter)> pAttchmntBuffer(attchmntSegment.data.DataSize > 0 ? allocateInfo.alloc(static_cast<size_t>(attchmntSegment.data.DataSize)) : nullptr, deleter);
+    std::unique_ptr<void, decltype(deleter)> pAttchmntBuffer(AllocateBufferForSegmentPart(allocateInfo, attchmntSegment.data.DataSize), deleter);
 
     if (pAttchmntBuffer)
     {
@@ -674,10 +720,15 @@ using namespace libCZI::detail;
         CCZIParse::ThrowIllegalData(offset, "Invalid MetadataSegment-magic");
     }
 
+    if (metadataSegment.data.XmlSize < 0 || metadataSegment.data.AttachmentSize < 0)
+    {
+        CCZIParse::ThrowIllegalData(offset, "Invalid (negative) size in Metadata-segment");
+    }
+
     // TODO: perform consistency checks...
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
-    std::unique_ptr<void, decltype(deleter)> pXmlBuffer(metadataSegment.data.XmlSize > 0 ? allocateInfo.alloc(metadataSegment.data.XmlSize) : nullptr, deleter);
-    std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(metadataSegment.data.AttachmentSize > 0 ? allocateInfo.alloc(static_cast<size_t>(metadataSegment.data.AttachmentSize)) : nullptr, deleter);
+    std::unique_ptr<void, decltype(deleter)> pXmlBuffer(AllocateBufferForSegmentPart(allocateInfo, metadataSegment.data.XmlSize), deleter);
+    std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(AllocateBufferForSegmentPart(allocateInfo, metadataSegment.data.AttachmentSize), deleter);
     if (pXmlBuffer)
     {
         try
-- 
2.43.0


From 1dea438fe79eb0c965477c8155d4311e291ce073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:25 +0000
Subject: [PATCH 07/36] fix: write all zeroes when filling more than 4096 bytes

---
 Src/libCZI/CziWriter.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index e957ccf..e90deab 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -470,12 +470,11 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
 {
     size_t totalBytesWritten = 0;
     std::uint8_t zeroes[4096] = { 0 };
-    for (std::uint64_t i = 0; i < (count + sizeof(zeroes) - 1) / sizeof(zeroes); ++i)
+    while (totalBytesWritten < count)
     {
         uint64_t bytesWritten;
-        const auto bytesToWrite = (std::min)(static_cast<decltype(count)>(sizeof(zeroes)), count);
-        writeFunc(filePos + i * sizeof(zeroes), zeroes, bytesToWrite, &bytesWritten, "AligningWithZeroes");
-        count -= sizeof(zeroes);
+        const auto bytesToWrite = (std::min)(static_cast<decltype(count)>(sizeof(zeroes)), count - totalBytesWritten);
+        writeFunc(filePos + totalBytesWritten, zeroes, bytesToWrite, &bytesWritten, "AligningWithZeroes");
         totalBytesWritten += (size_t)bytesWritten;
     }
 
-- 
2.43.0


From b1016dbc3491a45a2eea71619622b775a8439166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:37 +0000
Subject: [PATCH 08/36] fix: do not overwrite the attachment entries when
 padding the attachment directory

---
 Src/libCZI/CziWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index e90deab..377be92 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -770,7 +770,7 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
 
     if (totalBytesWritten < attchmntDirSegmentHeaderAllocatedSize + sizeof(SegmentHeader))
     {
-        bytesWritten += CWriterUtils::WriteZeroes(info.writeFunc, attchmDirPos + bytesWritten, attchmntDirSegmentHeaderAllocatedSize + sizeof(SegmentHeader) - bytesWritten);
+        totalBytesWritten += CWriterUtils::WriteZeroes(info.writeFunc, attchmDirPos + totalBytesWritten, attchmntDirSegmentHeaderAllocatedSize + sizeof(SegmentHeader) - totalBytesWritten);
     }
 
     return make_tuple(attchmDirPos, static_cast<std::uint64_t>(attchmntDirSegmentHeaderAllocatedSize));
-- 
2.43.0


From 5f23b393bd117067f019e1ae97b1f9492a9dca26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:47 +0000
Subject: [PATCH 09/36] fix: account for the segment header when a directory is
 appended

---
 Src/libCZI/CziReaderWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 1479722..ce59474 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -285,7 +285,7 @@ void CCziReaderWriter::Finish()
         if (get<0>(posAndSize) == sbBlkDirWriteInfo.segmentPosForNewSegment)
         {
             // ie the subblock-directory was appended at the end
-            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize));
+            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize) + sizeof(SegmentHeader));
         }
     }
 
@@ -323,7 +323,7 @@ void CCziReaderWriter::Finish()
         if (get<0>(posAndSize) == attchmntDirWriteInfo.segmentPosForNewSegment)
         {
             // ie the attachment-directory was appended at the end
-            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize));
+            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize) + sizeof(SegmentHeader));
         }
     }
 
-- 
2.43.0


From 8229b187e42c69e0992cadccef71a1abe824a912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:57 +0000
Subject: [PATCH 10/36] fix: advance the next segment position when a replaced
 attachment is appended

---
 Src/libCZI/CziReaderWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index ce59474..f2cafff 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -892,7 +892,7 @@ std::tuple<bool, std::uint64_t, CCziAttachmentsDirectoryBase::AttachmentEntry> C
     memcpy(entry.ContentFileType, addAttchmntInfo.contentFileType, sizeof(entry.ContentFileType));
     memcpy(entry.Name, addAttchmntInfo.name, sizeof(entry.Name));
 
-    return make_tuple(false, sizeOfSbBlk, entry);
+    return make_tuple(true, sizeOfSbBlk, entry);
 }
 
 std::tuple<bool, std::uint64_t, CCziAttachmentsDirectoryBase::AttachmentEntry> CCziReaderWriter::ReplaceAttachmentInplace(const libCZI::AddAttachmentInfo& addAttchmntInfo, const CCziAttachmentsDirectoryBase::AttachmentEntry& attchmntInfo, std::uint64_t existingSegmentAllocatedSize)
-- 
2.43.0


From 91f5d7555d19f85d980eeafb97db137a88464c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:08 +0000
Subject: [PATCH 11/36] fix: do not rely on null-terminated fields in
 attachment directory entries

---
 Src/libCZI/CZIReader.cpp       | 23 +++--------------------
 Src/libCZI/CziReaderCommon.cpp | 24 +++++++++++++++++-------
 Src/libCZI/CziReaderCommon.h   |  2 ++
 Src/libCZI/CziReaderWriter.cpp | 22 +++-------------------
 4 files changed, 25 insertions(+), 46 deletions(-)

diff --git a/Src/libCZI/CZIReader.cpp b/Src/libCZI/CZIReader.cpp
index 8993289..c9d6cb8 100644
--- a/Src/libCZI/CZIReader.cpp
+++ b/Src/libCZI/CZIReader.cpp
@@ -270,11 +270,7 @@ CCZIReader::CCZIReader() :
 
     if (info != nullptr)
     {
-        info->contentGuid = entry.ContentGuid;
-        static_assert(sizeof(info->contentFileType) == sizeof(entry.ContentFileType) + 1, "The sizes of the two fields differ from expectation.");
-        memcpy(info->contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
-        info->contentFileType[sizeof(entry.ContentFileType)] = '\0';
-        info->name = entry.Name;
+        *info = CziReaderCommon::ConvertToAttachmentInfo(entry);
     }
 
     return true;
@@ -283,16 +279,10 @@ CCZIReader::CCZIReader() :
 /*virtual*/void CCZIReader::EnumerateAttachments(const std::function<bool(int index, const libCZI::AttachmentInfo& info)>& funcEnum)
 {
     this->ThrowIfNotOperational();
-    libCZI::AttachmentInfo ai;
-    ai.contentFileType[sizeof(ai.contentFileType) - 1] = '\0';
     this->attachmentDir.EnumAttachments(
         [&](int index, const CCziAttachmentsDirectory::AttachmentEntry& ae)
         {
-            ai.contentGuid = ae.ContentGuid;
-            memcpy(ai.contentFileType, ae.ContentFileType, sizeof(ae.ContentFileType));
-            ai.name = ae.Name;
-            bool b = funcEnum(index, ai);
-            return b;
+            return funcEnum(index, CziReaderCommon::ConvertToAttachmentInfo(ae));
         });
 }
 
@@ -414,14 +404,7 @@ std::shared_ptr<libCZI::IAttachment> CCZIReader::ReadAttachment(const CCziAttach
     }
 
     auto attchmnt = CCZIParse::ReadAttachment(stream_reference.get(), entry.FilePosition, allocateInfo);
-    libCZI::AttachmentInfo attchmentInfo;
-    attchmentInfo.contentGuid = entry.ContentGuid;
-    static_assert(sizeof(attchmentInfo.contentFileType) > sizeof(entry.ContentFileType), "sizeof(attchmentInfo.contentFileType) must be greater than sizeof(entry.ContentFileType)");
-    memcpy(attchmentInfo.contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
-    attchmentInfo.contentFileType[sizeof(entry.ContentFileType)] = '\0';
-    attchmentInfo.name = entry.Name;
-
-    return std::make_shared<CCziAttachment>(attchmentInfo, attchmnt, allocateInfo.free);
+    return std::make_shared<CCziAttachment>(CziReaderCommon::ConvertToAttachmentInfo(entry), attchmnt, allocateInfo.free);
 }
 
 std::shared_ptr<libCZI::IMetadataSegment> CCZIReader::ReadMetadataSegment(std::uint64_t position)
diff --git a/Src/libCZI/CziReaderCommon.cpp b/Src/libCZI/CziReaderCommon.cpp
index 77c4983..2a2e16c 100644
--- a/Src/libCZI/CziReaderCommon.cpp
+++ b/Src/libCZI/CziReaderCommon.cpp
@@ -6,7 +6,9 @@
 
 #include "CziUtils.h"
 #include "utilities.h"
+#include <algorithm>
 #include <atomic>
+#include <cstring>
 
 using namespace std;
 using namespace libCZI;
@@ -88,18 +90,14 @@ using namespace libCZI::detail;
     const char* name,
     const std::function<bool(int index, const libCZI::AttachmentInfo& info)>& funcEnum)
 {
-    libCZI::AttachmentInfo ai;
-    ai.contentFileType[sizeof(ai.contentFileType) - 1] = '\0';
     func(
         [&](int index, const CCziAttachmentsDirectoryBase::AttachmentEntry& ae)
         {
-            if (contentFileType == nullptr || strcmp(contentFileType, ae.ContentFileType) == 0)
+            const libCZI::AttachmentInfo ai = CziReaderCommon::ConvertToAttachmentInfo(ae);
+            if (contentFileType == nullptr || strcmp(contentFileType, ai.contentFileType) == 0)
             {
-                if (name == nullptr || strcmp(name, ae.Name) == 0)
+                if (name == nullptr || ai.name == name)
                 {
-                    ai.contentGuid = ae.ContentGuid;
-                    memcpy(ai.contentFileType, ae.ContentFileType, sizeof(ae.ContentFileType));
-                    ai.name = ae.Name;
                     bool b = funcEnum(index, ai);
                     return b;
                 }
@@ -109,6 +107,18 @@ using namespace libCZI::detail;
         });
 }
 
+/*static*/libCZI::AttachmentInfo CziReaderCommon::ConvertToAttachmentInfo(const CCziAttachmentsDirectoryBase::AttachmentEntry& entry)
+{
+    // note: neither "ContentFileType" nor "Name" are guaranteed to be null-terminated
+    libCZI::AttachmentInfo info;
+    info.contentGuid = entry.ContentGuid;
+    static_assert(sizeof(info.contentFileType) == sizeof(entry.ContentFileType) + 1, "The sizes of the two fields differ from expectation.");
+    memcpy(info.contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
+    info.contentFileType[sizeof(entry.ContentFileType)] = '\0';
+    info.name.assign(entry.Name, std::find(entry.Name, entry.Name + sizeof(entry.Name), '\0'));
+    return info;
+}
+
 /*static*/libCZI::SubBlockInfo CziReaderCommon::ConvertToSubBlockInfo(const CCziSubBlockDirectory::SubBlkEntry& entry)
 {
     SubBlockInfo info;
diff --git a/Src/libCZI/CziReaderCommon.h b/Src/libCZI/CziReaderCommon.h
index 1d70179..4610e75 100644
--- a/Src/libCZI/CziReaderCommon.h
+++ b/Src/libCZI/CziReaderCommon.h
@@ -35,6 +35,8 @@ namespace libCZI
                 const char* name,
                 const std::function<bool(int index, const libCZI::AttachmentInfo& info)>& funcEnum);
 
+            static libCZI::AttachmentInfo ConvertToAttachmentInfo(const CCziAttachmentsDirectoryBase::AttachmentEntry& entry);
+
             static libCZI::SubBlockInfo ConvertToSubBlockInfo(const CCziSubBlockDirectory::SubBlkEntry& entry);
         };
 
diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index f2cafff..c4689c4 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -787,11 +787,7 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
 
     if (info != nullptr)
     {
-        info->contentGuid = entry.ContentGuid;
-        static_assert(sizeof(info->contentFileType) == sizeof(entry.ContentFileType) + 1, "The sizes of the two fields differ from expectation.");
-        memcpy(info->contentFileType, entry.ContentFileType, sizeof(info->contentFileType));
-        info->contentFileType[sizeof(entry.ContentFileType)] = '\0';
-        info->name = entry.Name;
+        *info = CziReaderCommon::ConvertToAttachmentInfo(entry);
     }
 
     return true;
@@ -803,12 +799,7 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
     this->attachmentDirectory.EnumEntries(
         [&](int index, const CCziAttachmentsDirectoryBase::AttachmentEntry& entry)->bool
         {
-            libCZI::AttachmentInfo info;
-            info.contentGuid = entry.ContentGuid;
-            memcpy(info.contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
-            info.name = entry.Name;
-            bool b = funcEnum(index, info);
-            return b;
+            return funcEnum(index, CziReaderCommon::ConvertToAttachmentInfo(entry));
         });
 }
 
@@ -934,14 +925,7 @@ std::shared_ptr<libCZI::IAttachment> CCziReaderWriter::ReadAttachment(const CCzi
     CCZIParse::SubBlockStorageAllocate allocateInfo{ malloc,free };
 
     auto attchmnt = CCZIParse::ReadAttachment(this->stream.get(), entry.FilePosition, allocateInfo);
-    libCZI::AttachmentInfo attchmentInfo;
-    attchmentInfo.contentGuid = entry.ContentGuid;
-    static_assert(sizeof(attchmentInfo.contentFileType) > sizeof(entry.ContentFileType), "sizeof(attchmentInfo.contentFileType) must be greater than sizeof(entry.ContentFileType)");
-    memcpy(attchmentInfo.contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
-    attchmentInfo.contentFileType[sizeof(entry.ContentFileType)] = '\0';
-    attchmentInfo.name = entry.Name;
-
-    return std::make_shared<CCziAttachment>(attchmentInfo, attchmnt, allocateInfo.free);
+    return std::make_shared<CCziAttachment>(CziReaderCommon::ConvertToAttachmentInfo(entry), attchmnt, allocateInfo.free);
 }
 
 void CCziReaderWriter::ThrowIfNotOperational() const
-- 
2.43.0


From ff8913388e10219e0fe3bfe60623ad11c1ee792f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:46 +0000
Subject: [PATCH 12/36] fix: report a negative index as not found

---
 Src/libCZI/CziAttachmentsDirectory.cpp | 2 +-
 Src/libCZI/CziSubBlockDirectory.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziAttachmentsDirectory.cpp b/Src/libCZI/CziAttachmentsDirectory.cpp
index 68bf85a..912d4ca 100644
--- a/Src/libCZI/CziAttachmentsDirectory.cpp
+++ b/Src/libCZI/CziAttachmentsDirectory.cpp
@@ -57,7 +57,7 @@ void CCziAttachmentsDirectory::EnumAttachments(const std::function<bool(int inde
 
 bool CCziAttachmentsDirectory::TryGetAttachment(int index, AttachmentEntry& entry) const
 {
-    if (index < (int)this->attachmentEntries.size())
+    if (index >= 0 && index < (int)this->attachmentEntries.size())
     {
         entry = this->attachmentEntries.at(index);
         return true;
diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 782684b..214f99f 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -415,7 +415,7 @@ void CCziSubBlockDirectory::EnumSubBlocks(const std::function<bool(int index, co
 
 bool CCziSubBlockDirectory::TryGetSubBlock(int index, SubBlkEntry& entry) const
 {
-    if (index < (int)this->subBlks.size())
+    if (index >= 0 && index < (int)this->subBlks.size())
     {
         entry = this->subBlks.at(index);
         return true;
-- 
2.43.0


From eec0aebb0f70eca658d7725290b724231f5502b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:57 +0000
Subject: [PATCH 13/36] fix: start over with the pyramid statistics when
 recreating the statistics

---
 Src/libCZI/CziSubBlockDirectory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 214f99f..2007488 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -40,6 +40,7 @@ void CSbBlkStatisticsUpdater::Clear()
 {
     this->statistics.Invalidate();
     this->statistics.subBlockCount = 0;
+    this->pyramidStatistics.scenePyramidStatistics.clear();
     this->pyramidStatisticsDirty = false;
 }
 
-- 
2.43.0


From ac422ad5af61b5f172693d6853a43694f9c2e345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:07 +0000
Subject: [PATCH 14/36] fix: do not sort consolidated pyramid statistics again
 on every query

---
 Src/libCZI/CziSubBlockDirectory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 2007488..2a69ba4 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -169,7 +169,7 @@ void CSbBlkStatisticsUpdater::Consolidate()
     if (this->pyramidStatisticsDirty)
     {
         this->SortPyramidStatistics();
-        this->pyramidStatisticsDirty = true;
+        this->pyramidStatisticsDirty = false;
     }
 }
 
-- 
2.43.0


From 8e97a27056764ea24948dbda156886e0ba1e84c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:19 +0000
Subject: [PATCH 15/36] fix: take the M-index of sub-blocks without any
 dimension into the statistics

---
 Src/libCZI/CziSubBlockDirectory.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 2a69ba4..065f2bb 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -82,22 +82,22 @@ void CSbBlkStatisticsUpdater::UpdateStatistics(const CCziSubBlockDirectoryBase::
                 }
             }
 
-            if (entry.IsMIndexValid())
-            {
-                if (entry.mIndex < this->statistics.minMindex)
-                {
-                    this->statistics.minMindex = entry.mIndex;
-                }
-
-                if (entry.mIndex > this->statistics.maxMindex)
-                {
-                    this->statistics.maxMindex = entry.mIndex;
-                }
-            }
-
             return true;
         });
 
+    if (entry.IsMIndexValid())
+    {
+        if (entry.mIndex < this->statistics.minMindex)
+        {
+            this->statistics.minMindex = entry.mIndex;
+        }
+
+        if (entry.mIndex > this->statistics.maxMindex)
+        {
+            this->statistics.maxMindex = entry.mIndex;
+        }
+    }
+
     // now deal with "enclosing Rect" for the scenes...
     int sceneIndex;
     if (entry.coordinate.TryGetPosition(libCZI::DimensionIndex::S, &sceneIndex))
-- 
2.43.0


From 6349ad88d8a75b5dc2e19515890e9c26c5a621f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:53 +0000
Subject: [PATCH 16/36] fix: reject TransformPoint and TryGetSubBlockInfo on
 objects which are not open

---
 Src/libCZI/CZIReader.cpp       | 2 ++
 Src/libCZI/CziReaderWriter.cpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/Src/libCZI/CZIReader.cpp b/Src/libCZI/CZIReader.cpp
index c9d6cb8..0c588e5 100644
--- a/Src/libCZI/CZIReader.cpp
+++ b/Src/libCZI/CZIReader.cpp
@@ -115,6 +115,7 @@ CCZIReader::CCZIReader() :
 
 /*virtual*/libCZI::IntPointAndFrameOfReference CCZIReader::TransformPoint(const libCZI::IntPointAndFrameOfReference& source_point, libCZI::CZIFrameOfReference destination_frame_of_reference)
 {
+    this->ThrowIfNotOperational();
     CZIFrameOfReference source_frame_of_reference_consolidated;
     switch (source_point.frame_of_reference)
     {
@@ -220,6 +221,7 @@ CCZIReader::CCZIReader() :
 
 /*virtual*/bool CCZIReader::TryGetSubBlockInfo(int index, SubBlockInfo* info) const
 {
+    this->ThrowIfNotOperational();
     CCziSubBlockDirectory::SubBlkEntry entry;
     if (this->subBlkDir.TryGetSubBlock(index, entry) == false)
     {
diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index c4689c4..9b4d541 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -720,6 +720,7 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
 
 /*virtual*/libCZI::IntPointAndFrameOfReference CCziReaderWriter::TransformPoint(const libCZI::IntPointAndFrameOfReference& source_point, libCZI::CZIFrameOfReference destination_frame_of_reference)
 {
+    this->ThrowIfNotOperational();
     CZIFrameOfReference source_frame_of_reference_consolidated;
     switch (source_point.frame_of_reference)
     {
-- 
2.43.0


From b638f9312d84017bbea5a2d121f5e344c3fe5d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:05 +0000
Subject: [PATCH 17/36] fix: forget the attachments of the previous document
 when a reader is opened again

---
 Src/libCZI/CZIReader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Src/libCZI/CZIReader.cpp b/Src/libCZI/CZIReader.cpp
index 0c588e5..2b32895 100644
--- a/Src/libCZI/CZIReader.cpp
+++ b/Src/libCZI/CZIReader.cpp
@@ -62,6 +62,10 @@ CCZIReader::CCZIReader() :
         // TODO: how to determine whether there is "no attachment-directory" - is the check for 0 sufficient?
         this->attachmentDir = CCZIParse::ReadAttachmentsDirectory(stream.get(), attachmentPos);
     }
+    else
+    {
+        this->attachmentDir = CCziAttachmentsDirectory();
+    }
 
     this->stream = stream;
     switch (options->default_frame_of_reference)
-- 
2.43.0


From 5add3c8358225795d1cf613620a5a6520cb3bb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:16 +0000
Subject: [PATCH 18/36] fix: release the stream and the state of a document
 when a reader-writer is closed

---
 Src/libCZI/CziReaderWriter.cpp | 17 +++++++++++++++--
 Src/libCZI/CziReaderWriter.h   |  1 +
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 9b4d541..0d1a6d0 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -97,8 +97,7 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     }
     catch (...)
     {
-        this->stream.reset();
-        this->info.reset();
+        this->ResetState();
         throw;
     }
 }
@@ -248,6 +247,20 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
 {
     this->ThrowIfNotOperational();
     this->Finish();
+    this->ResetState();
+}
+
+void CCziReaderWriter::ResetState()
+{
+    this->sbBlkDirectory = CReaderWriterCziSubBlockDirectory();
+    this->attachmentDirectory = CReaderWriterCziAttachmentsDirectory();
+    this->hdrSegmentData = CFileHeaderSegmentData();
+    this->nextSegmentInfo = CNextSegment();
+    this->metadataSegment.Invalidate();
+    this->subBlockDirectorySegment.Invalidate();
+    this->attachmentDirectorySegment.Invalidate();
+    this->stream.reset();
+    this->info.reset();
 }
 
 void CCziReaderWriter::Finish()
diff --git a/Src/libCZI/CziReaderWriter.h b/Src/libCZI/CziReaderWriter.h
index 1ea792e..0218f43 100644
--- a/Src/libCZI/CziReaderWriter.h
+++ b/Src/libCZI/CziReaderWriter.h
@@ -63,6 +63,7 @@ namespace libCZI
 
         private:
             void Finish();
+            void ResetState();
 
             void ReadCziStructure();
             libCZI::GUID UpdateFileHeaderGuid();
-- 
2.43.0


From 1a155278a1d8463e59c8c19292266bfe6d2d7b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:26 +0000
Subject: [PATCH 19/36] fix: do not stay operational when creating a document
 fails

---
 Src/libCZI/CziWriter.cpp | 45 ++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index 377be92..24c2aa2 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -930,27 +930,40 @@ CCziWriter::~CCziWriter()
         this->info = make_shared<CCziWriterInfo>(Utilities::GenerateNewGuid());
     }
 
-    FileHeaderData fhd;
-    memset(&fhd, 0, sizeof(fhd));
-    fhd.primaryFileGuid = this->info->GetFileGuid();
-    this->WriteFileHeader(fhd);
+    try
+    {
+        FileHeaderData fhd;
+        memset(&fhd, 0, sizeof(fhd));
+        fhd.primaryFileGuid = this->info->GetFileGuid();
+        this->WriteFileHeader(fhd);
 
-    this->nextSegmentPos = sizeof(FileHeaderSegment);
+        this->nextSegmentPos = sizeof(FileHeaderSegment);
 
-    size_t s;
-    if (this->info->TryGetReservedSizeForMetadataSegment(&s))
-    {
-        this->ReserveMetadataSegment(s);
-    }
+        size_t s;
+        if (this->info->TryGetReservedSizeForMetadataSegment(&s))
+        {
+            this->ReserveMetadataSegment(s);
+        }
 
-    if (this->info->TryGetReservedSizeForSubBlockDirectory(&s))
-    {
-        this->ReserveSubBlockDirectory(s);
-    }
+        if (this->info->TryGetReservedSizeForSubBlockDirectory(&s))
+        {
+            this->ReserveSubBlockDirectory(s);
+        }
 
-    if (this->info->TryGetReservedSizeForAttachmentDirectory(&s))
+        if (this->info->TryGetReservedSizeForAttachmentDirectory(&s))
+        {
+            this->ReserveAttachmentDirectory(s);
+        }
+    }
+    catch (...)
     {
-        this->ReserveAttachmentDirectory(s);
+        // the document could not be started, so the writer must not be considered operational
+        this->metadataSegment.Invalidate();
+        this->subBlockDirectorySegment.Invalidate();
+        this->attachmentDirectorySegment.Invalidate();
+        this->stream.reset();
+        this->info.reset();
+        throw;
     }
 }
 
-- 
2.43.0


From fb808b4338594241212c2fb144fcb8b879d9699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:56 +0000
Subject: [PATCH 20/36] fix: keep the last character of attachment names of
 full length

---
 Src/libCZI/CziParse.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 21c6411..16196b7 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -279,7 +279,6 @@ namespace
             ae.ContentGuid = pSrc->ContentGuid;
             memcpy(&ae.ContentFileType[0], &pSrc->ContentFileType[0], sizeof(AttachmentEntryA1::ContentFileType));
             memcpy(&ae.Name[0], &pSrc->Name[0], sizeof(AttachmentEntryA1::Name));
-            ae.Name[sizeof(AttachmentEntryA1::Name) - 1] = '\0';
             addFunc(ae);
         }
     }
-- 
2.43.0


From 605aa047105751a1a1659d34c91b6fc66a2ab507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:49 +0000
Subject: [PATCH 21/36] fix: read 8-bit components when converting Bgr24 to
 Bgr48

---
 Src/libCZI/BitmapOperations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index 2d41edb..608a3f4 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -94,7 +94,7 @@ namespace libCZI
         {
             void ConvertPixel(void* ptrDest, const void* ptrSrc) const
             {
-                const std::uint16_t* src = (const std::uint16_t*)ptrSrc;
+                const std::uint8_t* src = (const std::uint8_t*)ptrSrc;
                 std::uint16_t* dst = (std::uint16_t*)ptrDest;
                 *dst = *src;
                 *(dst + 1) = *(src + 1);
-- 
2.43.0


From 706273aece836cbcfba84d1a7e4a9cce60246929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:59 +0000
Subject: [PATCH 22/36] fix: advance pixel by pixel in the converting copy with
 mask

---
 Src/libCZI/BitmapOperationsBitonal.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 5832c35..5624313 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -713,10 +713,10 @@ namespace
                 {
                     conv.ConvertPixel(dest, src);
                 }
-            }
 
-            dest += CziUtils::BytesPerPel<tDstPixelType>();;
-            src += CziUtils::BytesPerPel<tSrcPixelType>();;
+                dest += CziUtils::BytesPerPel<tDstPixelType>();
+                src += CziUtils::BytesPerPel<tSrcPixelType>();
+            }
         }
     }
 
-- 
2.43.0


From d13811263cf992e346b72c50b9136b93c42905e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:32 +0000
Subject: [PATCH 23/36] fix: keep pixels of tiles drawn with a border at their
 position

---
 Src/libCZI/BitmapOperations.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index 608a3f4..53ec555 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -40,7 +40,11 @@ namespace libCZI
                 {
                     char* dest = static_cast<char*>(dstPtr) + y * static_cast<std::ptrdiff_t>(dstStride);
                     const char* src = static_cast<const char*>(srcPtr) + y * static_cast<std::ptrdiff_t>(srcStride);
-                    memcpy(dest + kBytesPerPel, src, bytes_to_copy - 2 * kBytesPerPel);
+                    if (width > 2)
+                    {
+                        memcpy(dest + kBytesPerPel, src + kBytesPerPel, bytes_to_copy - 2 * kBytesPerPel);
+                    }
+
                     memset(dest, 0, kBytesPerPel);
                     memset(dest + bytes_to_copy - kBytesPerPel, 0, kBytesPerPel);
                 }
-- 
2.43.0


From ea72a933731e10018057b91ddd506db075115db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:42 +0000
Subject: [PATCH 24/36] fix: consider the whole neighborhood when decimating a
 bitonal bitmap

---
 Src/libCZI/BitmapOperationsBitonal.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 5624313..48bc3e0 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -109,7 +109,7 @@ namespace
     private:
         static const std::uint8_t DecimateBitonalTable[256];
         static void DecimateLine(int y, int height, int regionSize, const std::uint8_t* ptrSrc, int widthSrc, int strideSrc, std::uint8_t* ptrDest, int widthDest, int strideDest);
-        static std::uint8_t GetByteAfter(const void* ptr, int x, int width);
+        static std::uint8_t GetByteAfter(int y, int height, const std::uint8_t* ptr, int x, int width, int stride);
         static std::uint16_t FilterDword(std::uint32_t dw, uint8_t byteBefore, uint8_t byteAfter);
     };
 
@@ -175,7 +175,7 @@ namespace
 
         for (int x = 0; x < numberOfDwords; ++x)
         {
-            uint8_t byteAfter = GetByteAfter(ptrSrc, (x * 4) + 4, widthSrc);
+            uint8_t byteAfter = GetByteAfter(y, height, ptrSrc, (x * 4) + 4, widthSrc, strideSrc);
             uint32_t dw = EndianessConv::BswapDWORD(DecimateHelpers<RegionSize>::GetDword(y, height, ptrSrc + static_cast<size_t>(x) * 4, strideSrc));
             uint16_t dest = FilterDword(dw, byteBefore, byteAfter);
             byteBefore = static_cast<uint8_t>(dw);
@@ -191,23 +191,28 @@ namespace
             // then filter the DWORD as usually
             const uint16_t dest = FilterDword(dw, byteBefore, 0xff);
 
-            if (bitsRemaining <= 16)
+            // only write those bytes which belong to the destination line
+            const int pixelsRemaining = widthDest - numberOfDwords * 16;
+            if (pixelsRemaining > 0)
             {
-                *reinterpret_cast<uint8_t*>(reinterpret_cast<uintptr_t>(ptrDest) + 2 * static_cast<size_t>(numberOfDwords)) = static_cast<uint8_t>(dest >> 8);
+                *(ptrDest + 2 * static_cast<size_t>(numberOfDwords)) = static_cast<uint8_t>(dest >> 8);
             }
-            else
+
+            if (pixelsRemaining > 8)
             {
-                *reinterpret_cast<uint16_t*>(reinterpret_cast<uintptr_t>(ptrDest) + 2 * static_cast<size_t>(numberOfDwords)) = EndianessConv::BswapUSHORT(dest);
+                *(ptrDest + 2 * static_cast<size_t>(numberOfDwords) + 1) = static_cast<uint8_t>(dest);
             }
         }
     }
 
     template <int RegionSize, class EndianessConv>
-    uint8_t DecimateBitonal<RegionSize, EndianessConv>::GetByteAfter(const void* ptr, int x, int width)
+    uint8_t DecimateBitonal<RegionSize, EndianessConv>::GetByteAfter(int y, int height, const uint8_t* ptr, int x, int width, int stride)
     {
-        if (x < width)
+        // note: "x" is in units of bytes, "width" is in units of pixels
+        const int bitsAvailable = width - x * 8;
+        if (bitsAvailable > 0)
         {
-            return *(static_cast<const uint8_t*>(ptr) + x);
+            return static_cast<uint8_t>(DecimateHelpers<RegionSize>::GetDwordPartial(y, height, ptr + x, (std::min)(bitsAvailable, 8), stride));
         }
 
         return 0xff;
@@ -301,7 +306,7 @@ namespace
         for (int i = start; i <= end; ++i)
         {
             dw &= *ptr;
-            ptr = reinterpret_cast<const uint32_t*>(static_cast<const uint8_t*>(ptrSrc) + pitchSrc);
+            ptr = reinterpret_cast<const uint32_t*>(reinterpret_cast<const uint8_t*>(ptr) + pitchSrc);
         }
 
         return dw;
-- 
2.43.0


From f3e615593504024cb34284416fc3560da999874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:53 +0000
Subject: [PATCH 25/36] fix: do not fill anything for a region left of or above
 a bitonal bitmap

---
 Src/libCZI/BitmapOperationsBitonal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 48bc3e0..8da99a1 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -1048,8 +1048,8 @@ namespace
 {
     const int x1 = (std::max)(roi.x, 0);
     const int y1 = (std::max)(roi.y, 0);
-    const int x2 = (std::min)(static_cast<uint32_t>(roi.x + roi.w), width);
-    const int y2 = (std::min)(static_cast<uint32_t>(roi.y + roi.h), height);
+    const int x2 = (std::min)(roi.x + roi.w, static_cast<int>(width));
+    const int y2 = (std::min)(roi.y + roi.h, static_cast<int>(height));
     const int w = x2 - x1;
     const int h = y2 - y1;
 
-- 
2.43.0


From 8ece722c80d83038ed3f56167c4b73ab100c37e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:01 +0000
Subject: [PATCH 26/36] fix: honor the scene filter in the single-channel tile
 accessor

---
 Src/libCZI/SingleChannelTileAccessor.cpp | 14 ++++++++++----
 Src/libCZI/SingleChannelTileAccessor.h   |  4 ++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/SingleChannelTileAccessor.cpp b/Src/libCZI/SingleChannelTileAccessor.cpp
index 543ca57..47986ec 100644
--- a/Src/libCZI/SingleChannelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelTileAccessor.cpp
@@ -135,17 +135,17 @@ void CSingleChannelTileAccessor::InternalGet(int xPos, int yPos, libCZI::IBitmap
     Clear(pBm, pOptions->backGroundColor);
     const IntSize sizeBm = pBm->GetSize();
     const IntRect roi{ xPos,yPos,static_cast<int>(sizeBm.w),static_cast<int>(sizeBm.h) };
-    const std::vector<IndexAndM> subBlocksSet = this->GetSubBlocksSubset(roi, planeCoordinate, pOptions->sortByM);
+    const std::vector<IndexAndM> subBlocksSet = this->GetSubBlocksSubset(roi, planeCoordinate, pOptions->sceneFilter.get(), pOptions->sortByM);
 
     this->ComposeTiles(pBm, xPos, yPos, subBlocksSet, *pOptions);
 }
 
-std::vector<CSingleChannelTileAccessor::IndexAndM> CSingleChannelTileAccessor::GetSubBlocksSubset(const IntRect& roi, const IDimCoordinate* planeCoordinate, bool sortByM)
+std::vector<CSingleChannelTileAccessor::IndexAndM> CSingleChannelTileAccessor::GetSubBlocksSubset(const IntRect& roi, const IDimCoordinate* planeCoordinate, const IIndexSet* sceneFilter, bool sortByM)
 {
     // ok... for a first tentative, experimental and quick-n-dirty implementation, simply
     // get all subblocks by enumerating all
     std::vector<IndexAndM> subBlocksSet;
-    this->GetAllSubBlocks(roi, planeCoordinate, [&](int index, int mIndex)->void {subBlocksSet.emplace_back(IndexAndM{ index,mIndex }); });
+    this->GetAllSubBlocks(roi, planeCoordinate, sceneFilter, [&](int index, int mIndex)->void {subBlocksSet.emplace_back(IndexAndM{ index,mIndex }); });
     if (sortByM == true)
     {
         // sort ascending-by-M-index (-> lowest M-index first, highest last)
@@ -161,11 +161,17 @@ std::vector<CSingleChannelTileAccessor::IndexAndM> CSingleChannelTileAccessor::G
     return subBlocksSet;
 }
 
-void CSingleChannelTileAccessor::GetAllSubBlocks(const IntRect& roi, const IDimCoordinate* planeCoordinate, const std::function<void(int index, int mIndex)>& appender) const
+void CSingleChannelTileAccessor::GetAllSubBlocks(const IntRect& roi, const IDimCoordinate* planeCoordinate, const IIndexSet* sceneFilter, const std::function<void(int index, int mIndex)>& appender) const
 {
     this->sbBlkRepository->EnumSubset(planeCoordinate, nullptr, true,
         [&](int idx, const SubBlockInfo& info)->bool
         {
+            int indexS;
+            if (sceneFilter != nullptr && info.coordinate.TryGetPosition(DimensionIndex::S, &indexS) && !sceneFilter->IsContained(indexS))
+            {
+                return true;
+            }
+
             if (Utilities::DoIntersect(roi, info.logicalRect))
             {
                 appender(idx, info.mIndex);
diff --git a/Src/libCZI/SingleChannelTileAccessor.h b/Src/libCZI/SingleChannelTileAccessor.h
index 7a6555a..2d4bcb9 100644
--- a/Src/libCZI/SingleChannelTileAccessor.h
+++ b/Src/libCZI/SingleChannelTileAccessor.h
@@ -26,7 +26,7 @@ namespace libCZI
             void Get(libCZI::IBitmapData* pDest, const libCZI::IntPointAndFrameOfReference& position, const libCZI::IDimCoordinate* planeCoordinate, const Options* pOptions) override;
         private:
             void InternalGet(int xPos, int yPos, libCZI::IBitmapData* pBm, const libCZI::IDimCoordinate* planeCoordinate, const libCZI::ISingleChannelTileAccessor::Options* pOptions);
-            void GetAllSubBlocks(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, const std::function<void(int index, int mIndex)>& appender) const;
+            void GetAllSubBlocks(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, const libCZI::IIndexSet* sceneFilter, const std::function<void(int index, int mIndex)>& appender) const;
 
             struct IndexAndM
             {
@@ -34,7 +34,7 @@ namespace libCZI
                 int mIndex;
             };
 
-            std::vector<CSingleChannelTileAccessor::IndexAndM> GetSubBlocksSubset(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, bool sortByM);
+            std::vector<CSingleChannelTileAccessor::IndexAndM> GetSubBlocksSubset(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, const libCZI::IIndexSet* sceneFilter, bool sortByM);
             void ComposeTiles(libCZI::IBitmapData* pBm, int xPos, int yPos, const std::vector<IndexAndM>& subBlocksSet, const libCZI::ISingleChannelTileAccessor::Options& options);
         };
 
-- 
2.43.0


From 40a7ab8bf5217774dc0a65a0ba1added9b87eb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:11 +0000
Subject: [PATCH 27/36] fix: do not skip tiles as hidden when masks are taken
 into account

---
 Src/libCZI/SingleChannelScalingTileAccessor.cpp | 2 +-
 Src/libCZI/SingleChannelTileAccessor.cpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/SingleChannelScalingTileAccessor.cpp b/Src/libCZI/SingleChannelScalingTileAccessor.cpp
index e12854d..10c4994 100644
--- a/Src/libCZI/SingleChannelScalingTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelScalingTileAccessor.cpp
@@ -368,7 +368,7 @@ void CSingleChannelScalingTileAccessor::Paint(libCZI::IBitmapData* bmDest, const
         }
     }
 
-    if (!options.useVisibilityCheckOptimization)
+    if (!options.useVisibilityCheckOptimization || options.maskAware)   // a masked tile does not necessarily hide the tiles below it
     {
         for (auto it = start_iterator; it != end_iterator; ++it)
         {
diff --git a/Src/libCZI/SingleChannelTileAccessor.cpp b/Src/libCZI/SingleChannelTileAccessor.cpp
index 47986ec..5cd8c78 100644
--- a/Src/libCZI/SingleChannelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelTileAccessor.cpp
@@ -51,7 +51,7 @@ void CSingleChannelTileAccessor::ComposeTiles(libCZI::IBitmapData* pBm, int xPos
     composeOptions.Clear();
     composeOptions.drawTileBorder = options.drawTileBorder;
 
-    if (options.useVisibilityCheckOptimization)
+    if (options.useVisibilityCheckOptimization && !options.maskAware)   // a masked tile does not necessarily hide the tiles below it
     {
         // Try to reduce the number of subblocks to be rendered by doing a visibility check, and only rendering those which are visible.
         // We report the subblocks in the order as they are given in the vector 'subBlocksSet', the lambda will be called with the
-- 
2.43.0


From cde55436bb77f18586af1b15de24e5a0a818ee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:20 +0000
Subject: [PATCH 28/36] fix: ignore a cached mask when not in mask-aware mode

---
 Src/libCZI/SingleChannelAccessorBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/SingleChannelAccessorBase.cpp b/Src/libCZI/SingleChannelAccessorBase.cpp
index 286b50f..d6c2447 100644
--- a/Src/libCZI/SingleChannelAccessorBase.cpp
+++ b/Src/libCZI/SingleChannelAccessorBase.cpp
@@ -175,7 +175,7 @@ std::vector<int> CSingleChannelAccessorBase::CheckForVisibility(const libCZI::In
             }
 
             result.bitmap = bitmap_from_cache.bitmap;
-            result.mask = bitmap_from_cache.mask;
+            result.mask = mask_aware_mode ? bitmap_from_cache.mask : nullptr;
         }
         else
         {
-- 
2.43.0


From 1f820c0ab8328bf75aa68615dfd68bed28179a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:16 +0000
Subject: [PATCH 29/36] fix: decode lo-hi-byte-packed Bgr48 when handling a
 size mismatch

---
 Src/libCZI/decoder_zstd.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/decoder_zstd.cpp b/Src/libCZI/decoder_zstd.cpp
index 5aeef82..cf309e8 100644
--- a/Src/libCZI/decoder_zstd.cpp
+++ b/Src/libCZI/decoder_zstd.cpp
@@ -292,7 +292,7 @@ namespace
 
             auto bitmap = CStdBitmapData::Create(pixel_type, width, height);
             auto bitmap_lock_info = libCZI::ScopedBitmapLockerSP(bitmap);
-            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, stride / bytes_per_pel, height, bitmap_lock_info.stride, bitmap_lock_info.ptrDataRoi);
+            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, stride / 2, height, bitmap_lock_info.stride, bitmap_lock_info.ptrDataRoi);
             return bitmap;
         }
         else if (zstd_frame_content_size < expectedSize)
@@ -307,8 +307,11 @@ namespace
 
             auto bitmap = CStdBitmapData::Create(pixel_type, width, height, stride);
             auto bitmap_lock_info = libCZI::ScopedBitmapLockerSP(bitmap);
-            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / bytes_per_pel, 1, zstd_frame_content_size, bitmap_lock_info.ptrDataRoi);
-            memset(static_cast<uint8_t*>(bitmap_lock_info.ptrDataRoi) + decompressed_size, 0, expectedSize - decompressed_size);
+            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / 2, 1, zstd_frame_content_size, bitmap_lock_info.ptrDataRoi);
+
+            // note: with an odd number of bytes, the last byte is not part of a complete 16-bit pel
+            const size_t packed_size = (decompressed_size / 2) * 2;
+            memset(static_cast<uint8_t*>(bitmap_lock_info.ptrDataRoi) + packed_size, 0, expectedSize - packed_size);
             return bitmap;
         }
         else
@@ -331,7 +334,7 @@ namespace
                 throw runtime_error("Failed to allocate temporary buffer for Zstd-decompression.");
             }
 
-            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / bytes_per_pel, 1, zstd_frame_content_size, temporary_buffer_for_packed.get());
+            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / 2, 1, zstd_frame_content_size, temporary_buffer_for_packed.get());
 
             // now we can release the first temporary buffer
             temporary_buffer.reset();
-- 
2.43.0


From 9f4ec2236629efc235879c8acdc6234e873553f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:27 +0000
Subject: [PATCH 30/36] fix: validate the size field of a zstd1-header before
 reading the chunk

---
 Src/libCZI/decoder_zstd.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/decoder_zstd.cpp b/Src/libCZI/decoder_zstd.cpp
index cf309e8..df4adaa 100644
--- a/Src/libCZI/decoder_zstd.cpp
+++ b/Src/libCZI/decoder_zstd.cpp
@@ -375,13 +375,10 @@ namespace
             return retVal;
         }
 
-        if (*ptrData == 3)
+        // in this case... the size must be at least 3 
+        if (*ptrData != 3 || size < 3)
         {
-            // in this case... the size must be at least 3 
-            if (size < 3)
-            {
-                return retVal;
-            }
+            return retVal;
         }
 
         // is "chunk type 1" next?
-- 
2.43.0


From 399896b433e62e2f2e20e98a50e23a0e6952dbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:44 +0000
Subject: [PATCH 31/36] fix: enumerate all chunks of a chunk container

---
 Src/libCZI/SubblockAttachmentAccessor.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/Src/libCZI/SubblockAttachmentAccessor.cpp b/Src/libCZI/SubblockAttachmentAccessor.cpp
index da621b2..54c75cc 100644
--- a/Src/libCZI/SubblockAttachmentAccessor.cpp
+++ b/Src/libCZI/SubblockAttachmentAccessor.cpp
@@ -55,22 +55,20 @@ bool SubblockAttachmentAccessor::EnumerateChunksInChunkContainer(const std::func
         throw LibCZIException("Invalid attachment data in sub-block or no attachment present.");
     }
 
-    std::uint32_t offset = 0;
+    std::uint64_t offset = 0;
     bool chunk_delivered = false;
 
-    for (int index = 0;;)
+    for (int index = 0;; ++index)
     {
         ChunkInfo chunk_info;
 
         // Read the GUID (16 bytes)
-        memcpy(&chunk_info.guid, attachment_data, 16);
+        memcpy(&chunk_info.guid, attachment_data + offset, 16);
         Utilities::ConvertGuidToHostByteOrder(&chunk_info.guid);
-        attachment_data += 16;
 
         // Read the size (4 bytes)
-        memcpy(&chunk_info.size, attachment_data, 4);
+        memcpy(&chunk_info.size, attachment_data + offset + 16, 4);
         Utilities::ConvertUint32ToHostByteOrder(&chunk_info.size);
-        attachment_data += 4;
 
         // is sufficient data available?
         if (size_attachment_data < offset + 20 + chunk_info.size)
@@ -78,7 +76,7 @@ bool SubblockAttachmentAccessor::EnumerateChunksInChunkContainer(const std::func
             throw LibCZIException("Corrupted chunk data.");
         }
 
-        chunk_info.offset = offset + 20;
+        chunk_info.offset = static_cast<std::uint32_t>(offset + 20);
 
         chunk_delivered = true;
         const bool b = functor_enum(index, chunk_info);
@@ -87,7 +85,7 @@ bool SubblockAttachmentAccessor::EnumerateChunksInChunkContainer(const std::func
             break;
         }
 
-        offset += 20 + chunk_info.size;
+        offset += 20 + static_cast<std::uint64_t>(chunk_info.size);
 
         // if there are not at least 21 bytes left, we are done (note that we require at least 1 byte of payload!)
         if (size_attachment_data < offset + 21)
-- 
2.43.0


From 5503c9ece705fadf44720ad9af58a8129c23f368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:59 +0000
Subject: [PATCH 32/36] fix: report a missing or incomplete valid-pixel-mask
 chunk

---
 Src/libCZI/SubblockAttachmentAccessor.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/SubblockAttachmentAccessor.cpp b/Src/libCZI/SubblockAttachmentAccessor.cpp
index 54c75cc..3cf80fc 100644
--- a/Src/libCZI/SubblockAttachmentAccessor.cpp
+++ b/Src/libCZI/SubblockAttachmentAccessor.cpp
@@ -105,18 +105,30 @@ libCZI::SubBlockAttachmentMaskInfoGeneral SubblockAttachmentAccessor::GetValidPi
     }
 
     ChunkInfo chunk_info_valid_pixel_mask;
+    bool valid_pixel_mask_found = false;
     this->EnumerateChunksInChunkContainer(
-        [&chunk_info_valid_pixel_mask](int /*index*/, const ChunkInfo& info)
+        [&chunk_info_valid_pixel_mask, &valid_pixel_mask_found](int /*index*/, const ChunkInfo& info)
         {
             if (info.guid == kGuidValidPixelMask)
             {
                 chunk_info_valid_pixel_mask = info;
+                valid_pixel_mask_found = true;
                 return false; // stop enumeration
             }
 
             return true; // continue enumeration
         });
 
+    if (!valid_pixel_mask_found)
+    {
+        throw LibCZIException("The chunk container does not contain a valid pixel mask.");
+    }
+
+    if (chunk_info_valid_pixel_mask.size < 3 * sizeof(uint32_t))
+    {
+        throw LibCZIException("Corrupted valid pixel mask chunk.");
+    }
+
     SubBlockAttachmentMaskInfoGeneral mask_info_general;
     shared_ptr<const void> spData = this->sub_block_->GetRawData(ISubBlock::MemBlkType::Attachment, nullptr);
     memcpy(&mask_info_general.width, static_cast<const uint8_t*>(spData.get()) + chunk_info_valid_pixel_mask.offset, sizeof(mask_info_general.width));
-- 
2.43.0


From e84486a71992b851039de8354ebbd7a24341bb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:13 +0000
Subject: [PATCH 33/36] fix: compute the minimal stride of a pixel mask without
 overflow

---
 Src/libCZI/SubblockAttachmentAccessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/SubblockAttachmentAccessor.cpp b/Src/libCZI/SubblockAttachmentAccessor.cpp
index 3cf80fc..d6c867b 100644
--- a/Src/libCZI/SubblockAttachmentAccessor.cpp
+++ b/Src/libCZI/SubblockAttachmentAccessor.cpp
@@ -184,7 +184,7 @@ libCZI::SubBlockAttachmentMaskInfoGeneral SubblockAttachmentAccessor::GetValidPi
         throw LibCZIException("Invalid dimensions for uncompressed bitonal bitmap.");
     }
 
-    const uint32_t minimal_stride = (mask_info.width + 7) / 8;
+    const uint32_t minimal_stride = static_cast<uint32_t>((static_cast<uint64_t>(mask_info.width) + 7) / 8);
     if (mask_info.stride < minimal_stride)
     {
         throw LibCZIException("Invalid stride for uncompressed bitonal bitmap.");
-- 
2.43.0


From 2c70fdc0135ef1b282862cb3f3a8a0abe8ea91a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:34 +0000
Subject: [PATCH 34/36] fix: classify wide characters of a color-string with
 the wide-character function

---
 Src/libCZI/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/utilities.cpp b/Src/libCZI/utilities.cpp
index 7c5bc13..8bd0537 100644
--- a/Src/libCZI/utilities.cpp
+++ b/Src/libCZI/utilities.cpp
@@ -234,7 +234,7 @@ tString trimImpl(const tString& str, const tString& whitespace)
         std::uint8_t r = 0, g = 0, b = 0, a = 0;
         for (size_t i = 1; i < (std::max)(static_cast<size_t>(9), str.size()); ++i)
         {
-            if (!isxdigit(str[i]))
+            if (!iswxdigit(str[i]))
             {
                 return false;
             }
-- 
2.43.0


From 159f06917162be0019d0649db47b9ae1118bd605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:49 +0000
Subject: [PATCH 35/36] fix: reject a sign without digits in the string of an
 index-set

---
 Src/libCZI/IndexSet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Src/libCZI/IndexSet.cpp b/Src/libCZI/IndexSet.cpp
index ace691d..67221c9 100644
--- a/Src/libCZI/IndexSet.cpp
+++ b/Src/libCZI/IndexSet.cpp
@@ -163,6 +163,12 @@ second_part_done:
     }
     else
     {
+        if (str.compare(L"-") == 0 || str.compare(L"+") == 0)
+        {
+            // a sign without a number
+            throw LibCZIStringParseException("Syntax error", -1, LibCZIStringParseException::ErrorType::InvalidSyntax);
+        }
+
         long int liValue = wcstol(str.c_str(), nullptr, 10);
         if (liValue == (std::numeric_limits<long int>::max)() || liValue == (std::numeric_limits<long int>::min)())
         {
-- 
2.43.0


From 8bfd54d9a61900c33c2fd2d57eea5c02c474a001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:25 +0000
Subject: [PATCH 36/36] fix: a subblock which fits into an existing segment can
 be replaced in place even if the size of the segment is not aligned

---
 Src/libCZI/CziWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index 24c2aa2..fba3b7f 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -141,7 +141,7 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
         CWriterUtils::FillSubBlockSegment(info, addSbBlkInfo, &sbBlkSegment);
         if (info.useSpecifiedAllocatedSize == true)
         {
-            if (static_cast<uint64_t>(sbBlkSegment.header.AllocatedSize) > info.specifiedAllocatedSize)
+            if (static_cast<uint64_t>(sbBlkSegment.header.UsedSize) > info.specifiedAllocatedSize)
             {
                 // TODO
                 throw runtime_error("specified segment-size not sufficient");
@@ -162,7 +162,7 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
         CWriterUtils::FillSubBlockSegment(info, addSbBlkInfo, upSbBlkSegment.get());
         if (info.useSpecifiedAllocatedSize == true)
         {
-            if (static_cast<uint64_t>(upSbBlkSegment->header.AllocatedSize) > info.specifiedAllocatedSize)
+            if (static_cast<uint64_t>(upSbBlkSegment->header.UsedSize) > info.specifiedAllocatedSize)
             {
                 // TODO
                 throw runtime_error("specified segment-size not sufficient");
-- 
2.43.0

