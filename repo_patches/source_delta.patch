From d452a08e014e50c2b993ea0a10bc85c95037efe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 01/49] fix: write class definitions into the AUXData node of
 an MVR file

---
 src/SceneDataExchange.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index b231634..8121c2b 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3665,6 +3665,11 @@ bool SceneDataExchange::WriteXml(const IFolderIdentifierPtr& folder, IXMLFileIOB
 					{
 						symDef->PrintToFile( pAuxDataNode, this );
 					}
+
+					for ( const auto& classObj : fClasses )
+					{
+						classObj->PrintToFile( pAuxDataNode, this );
+					}
 				}
 				
 
-- 
2.43.0


From 40f8824d0c4e94dab7ffdbcb461b95ce67955ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 02/49] fix: CreateGroupObject keeps the transformation matrix
 it is given

---
 src/SceneDataExchange.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 8121c2b..f1d4c79 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3187,6 +3187,7 @@ SceneDataGroupObjPtr SceneDataExchange::CreateGroupObject(const SceneDataGUID& g
 {
 	SceneDataGroupObjPtr newGroup = new SceneDataGroupObj(guid);
 	addToContainer->AddObject(newGroup);
+	newGroup->SetTransformMatrix(offset);
 	return newGroup;
 }
 
@@ -3194,6 +3195,7 @@ SceneDataGroupObjPtr SceneDataExchange::CreateGroupObject(const SceneDataGUID& g
 {
 	SceneDataGroupObjPtr newGroup = new SceneDataGroupObj(guid);
 	addToContainer->AddObject(newGroup);
+	newGroup->SetTransformMatrix(offset);
 	newGroup->setName(name);
 	return newGroup;
 }
-- 
2.43.0


From 5ca1354b4a79e98f5eb1ac386c8d2ac812ce2b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 03/49] fix: do not dereference the missing source of a mapping
 definition on export

---
 src/SceneDataExchange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index f1d4c79..3b3a776 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -811,7 +811,7 @@ void SceneDataMappingDefinitionObj::OnPrintToFile(IXMLFileNodePtr pNode, SceneDa
 		pSizeYNode->SetNodeValue(GdtfConverter::ConvertInteger(fSizeY));
 	}
 
-	fSource->PrintToFile(pNode, exchange);
+	if(fSource) { fSource->PrintToFile(pNode, exchange); }
 
 	IXMLFileNodePtr pScaleHandlingNode;
 	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_Val_MappingDefinitionScaleHandling, &pScaleHandlingNode)))
-- 
2.43.0


From a5c579c21ef72c62b39b6dca95bbc07b6b2393d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 04/49] fix: initialise projector scale handling and protocol
 transmission

---
 src/SceneDataExchange.cpp | 2 +-
 src/SceneDataExchange.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 3b3a776..81fc658 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -2439,7 +2439,7 @@ void SceneDataFixtureObj::OnReadFromNode(const IXMLFileNodePtr& pNode, SceneData
 			pNode->GetNodeAttributeValue( XML_Val_ProtocolType, type );
 			pNode->GetNodeAttributeValue( XML_Val_ProtocolVersion, version );
 			pNode->GetNodeAttributeValue( XML_Val_ProtocolTransmission, transmission );
-			ETransmissionType transmision;
+			ETransmissionType transmision = ETransmissionType::Anycast;
 			GdtfConverter::ConvertTransmissionTypeEnum( transmission, pNode, transmision );
 
 			SceneDataProtocols protocol( geometry, name, type, version, transmision );
diff --git a/src/SceneDataExchange.h b/src/SceneDataExchange.h
index afbacc2..545284e 100644
--- a/src/SceneDataExchange.h
+++ b/src/SceneDataExchange.h
@@ -919,7 +919,7 @@ namespace SceneData
 	
 	private:
 		SceneDataSourceObjPtr 				fSource;
-		EScaleHandlingType					fScaleHandling;
+		EScaleHandlingType					fScaleHandling = EScaleHandlingType::ScaleKeepRatio;
 
 	public:
 		virtual SceneDataSourceObjPtr 		GetVideoSource();
-- 
2.43.0


From 986d39f3bce2840359435f277cab702f11139cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 05/49] fix: resolve multipatch parents after the whole scene
 has been read

---
 src/SceneDataExchange.cpp | 22 +++++++++++++++++++---
 src/SceneDataExchange.h   |  2 ++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 81fc658..e6d207a 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -241,6 +241,11 @@ void SceneDataObj::setMultipatchParent( SceneDataObj* value )
 	fMultipatchObj = value;
 }
 
+const TXString& SceneDataObj::getUnresolvedMultipatchParent() const
+{
+	return fUnresolvedMultipatch;
+}
+
 SceneDataObj* SceneDataObj::getMultipatchParent() const
 {
 	return fMultipatchObj;
@@ -309,9 +314,8 @@ void SceneDataObj::OnReadFromNode(const IXMLFileNodePtr& pNode, SceneDataExchang
 
 	if ( !multipatch.IsEmpty() )
 	{	
-		SceneDataGUID uuid( multipatch );
-		const auto& multipatchObj = exchange->GetSceneObjByUUID(uuid);
-		this->setMultipatchParent(multipatchObj);
+		// The parent may be read later, it is resolved when the whole scene is available
+		fUnresolvedMultipatch = multipatch;
 	}
 }
 
@@ -3971,6 +3975,18 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 		}
 	}
 
+	//------------------------------------------------------------------------------------------------------------------------------------------------------------------------
+	// Resolve multipatch parents from uuids
+	for (SceneDataObjWithMatrixPtr scObj : fSceneObjects)
+	{
+		const TXString& multipatchUuid = scObj->getUnresolvedMultipatchParent();
+
+		if (multipatchUuid.IsEmpty() == false)
+		{
+			scObj->setMultipatchParent(this->GetSceneObjByUUID(SceneDataGUID(multipatchUuid)));
+		}
+	}
+
 	//------------------------------------------------------------------------------------------------------------------------------------------------------------------------
 	// Resolve classes from uuids
 	for (SceneDataObjWithMatrixPtr scObj : fSceneObjects)
diff --git a/src/SceneDataExchange.h b/src/SceneDataExchange.h
index 545284e..0c5d1ed 100644
--- a/src/SceneDataExchange.h
+++ b/src/SceneDataExchange.h
@@ -111,6 +111,7 @@ namespace SceneData
 		SceneDataGUID					fGuid;
 		TXString						fName;
 		SceneDataObj*					fMultipatchObj = nullptr;
+		TXString						fUnresolvedMultipatch;
     
 	public:   
 		SceneDataGUID&					getGuid();
@@ -119,6 +120,7 @@ namespace SceneData
     
 		void							setMultipatchParent( SceneDataObj* value );
 		SceneDataObj*				    getMultipatchParent() const;
+		const TXString&					getUnresolvedMultipatchParent() const;
     
 		// Write    
 		virtual void					PrintToFile(IXMLFileNodePtr pContainerNode, SceneDataExchange* exchange);
-- 
2.43.0


From ed5716293f929a69af850a4972090cc382459156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 06/49] fix: symbols that refer to a missing definition no
 longer crash the reader

---
 src/SceneDataExchange.cpp | 71 ++++++++++++++++++++++-----------------
 src/SceneDataExchange.h   |  2 ++
 2 files changed, 42 insertions(+), 31 deletions(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index e6d207a..e93379c 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -4011,42 +4011,51 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 			
 		}
 
-        //-----------------------------------------------------------------------------
-        // Resolve Symbols in Symbols
-        TSymDefMap::iterator it = fSymDefMap.begin();
-        while(it != fSymDefMap.end())
-        {
-            SceneDataSymDefObjPtr symDef = it->second;
-
-            for (SceneDataGeoInstanceObjPtr geoObj : symDef->getGeometryArray()) 
-            {
-                if (geoObj->IsSymDef())
-                {
-				    SceneDataSymbolObjPtr symObj = static_cast<SceneDataSymbolObjPtr>(geoObj);
-				    SceneDataSymDefObjPtr ptr    = fSymDefMap[symObj->GetUnresolvedSymDef()];
-				
-				    ASSERTN(kEveryone, ptr);
-				    if(ptr) { symObj->SetSymDef(ptr); }
-                }
-            }
+	}
 
-            it++;
-        }
+	//-----------------------------------------------------------------------------
+	// Resolve Symbols in the scene, layers and groups can have geometries too
+	for (SceneDataObjWithMatrixPtr layer : fChildObjs)
+	{
+		ResolveSymbolsInTree(layer);
+	}
+
+	//-----------------------------------------------------------------------------
+	// Resolve Symbols in Symbols
+	for (SceneDataAuxObjPtr auxObj : fSymDefObjs)
+	{
+		SceneDataSymDefObjPtr symDef = static_cast<SceneDataSymDefObjPtr>(auxObj);
+		ResolveSymbols(symDef->getGeometryArray());
+	}
+	
+}
 
-		for(SceneDataGeoInstanceObjPtr geoObj : scObj->GetGeometryArr())
+void SceneDataExchange::ResolveSymbols(const SceneDataGeometryObjArray& geometries)
+{
+	for (SceneDataGeoInstanceObjPtr geoObj : geometries)
+	{
+		if (geoObj->IsSymDef())
 		{
-			if(geoObj->IsSymDef())
-			{
-				SceneDataSymbolObjPtr symObj = static_cast<SceneDataSymbolObjPtr>(geoObj);
-				SceneDataSymDefObjPtr ptr    = fSymDefMap[symObj->GetUnresolvedSymDef()];
-				
-				ASSERTN(kEveryone, ptr);
-				if(ptr) { symObj->SetSymDef(ptr); }
-			}
+			SceneDataSymbolObjPtr symObj = static_cast<SceneDataSymbolObjPtr>(geoObj);
+
+			// A symbol may refer to a definition that is not part of the file
+			TSymDefMap::const_iterator it = fSymDefMap.find(symObj->GetUnresolvedSymDef());
+
+			ASSERTN(kEveryone, it != fSymDefMap.end());
+			if (it != fSymDefMap.end()) { symObj->SetSymDef(it->second); }
 		}
-		
 	}
-	
+}
+
+void SceneDataExchange::ResolveSymbolsInTree(SceneDataObjWithMatrixPtr obj)
+{
+	ResolveSymbols(obj->GetGeometryArr());
+
+	SceneDataGroupObjPtr container = dynamic_cast<SceneDataGroupObjPtr>(obj);
+	if (container)
+	{
+		for (SceneDataObjWithMatrixPtr child : container->GetChildArray()) { ResolveSymbolsInTree(child); }
+	}
 }
 
 void SceneDataExchange::ProcessLayer(const IXMLFileNodePtr& node)
diff --git a/src/SceneDataExchange.h b/src/SceneDataExchange.h
index 0c5d1ed..b300f10 100644
--- a/src/SceneDataExchange.h
+++ b/src/SceneDataExchange.h
@@ -1122,6 +1122,8 @@ namespace SceneData
 
 	private:
 		void								ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xmlFile);
+		void								ResolveSymbols(const SceneDataGeometryObjArray& geometries);
+		void								ResolveSymbolsInTree(SceneDataObjWithMatrixPtr obj);
 		void								ProcessLayer(const IXMLFileNodePtr& node);
 		void								ReadChildObjs(const IXMLFileNodePtr & node, SceneDataGroupObjPtr addToContainer);
 		SceneDataGroupObjPtr				ProcessGroup(const IXMLFileNodePtr& node, SceneDataGroupObjPtr addToContainer);
-- 
2.43.0


From 01c3c8d95e4b54cf8be62927c05dd98d37ce1f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 07/49] fix: GetProtocolAt hands the protocol to the caller

---
 src/Implementation/CSceneObjImpl.cpp | 6 +++---
 src/SceneDataExchange.cpp            | 8 ++++----
 src/SceneDataExchange.h              | 8 ++++----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/Implementation/CSceneObjImpl.cpp b/src/Implementation/CSceneObjImpl.cpp
index 1da2d4f..dfea1cd 100644
--- a/src/Implementation/CSceneObjImpl.cpp
+++ b/src/Implementation/CSceneObjImpl.cpp
@@ -1034,13 +1034,13 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetProtocolAt( size_t a
 	if( ! fixture) return kVCOMError_NoFixtureObj;
 
 	// Check the psotion of the array
-	if (at > fixture->GetProtocolsArray().size() )
+	if (at >= fixture->GetProtocolsArray().size() )
 	{
 		DSTOP((kEveryone, "Array overflow"));
 		return kVCOMError_Failed;
 	}
 
-	SceneData::SceneDataProtocols protocol = fixture->GetProtocolsArray().at( at );
+	const SceneData::SceneDataProtocols& protocol = fixture->GetProtocolsArray().at( at );
 	SProtocol* pProtocol = new SProtocol;
 	pProtocol->fGeometry = protocol.GetGeometry().GetCharPtr();
 	pProtocol->fName = protocol.GetName().GetCharPtr();
@@ -1048,7 +1048,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetProtocolAt( size_t a
 	pProtocol->fVersion = protocol.GetVersion().GetCharPtr();
 	pProtocol->fType = protocol.GetType().GetCharPtr();
 
-	outProtocol = &pProtocol;
+	*outProtocol = pProtocol;
 
 	return kVCOMError_NoError;
 }
diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index e93379c..4b4b054 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -1866,22 +1866,22 @@ SceneDataProtocols::SceneDataProtocols( const TXString& geometry, const TXString
 	fTransmision	= transmision;
 }
 
-TXString SceneDataProtocols::GetGeometry() const
+const TXString& SceneDataProtocols::GetGeometry() const
 {
 	return fGeometry;
 }
 
-TXString SceneDataProtocols::GetName() const
+const TXString& SceneDataProtocols::GetName() const
 {
 	return fName;
 }
 
-TXString SceneDataProtocols::GetType() const
+const TXString& SceneDataProtocols::GetType() const
 {
 	return fType;
 }
 
-TXString SceneDataProtocols::GetVersion() const
+const TXString& SceneDataProtocols::GetVersion() const
 {
 	return fVersion;
 }
diff --git a/src/SceneDataExchange.h b/src/SceneDataExchange.h
index b300f10..24c3ae7 100644
--- a/src/SceneDataExchange.h
+++ b/src/SceneDataExchange.h
@@ -742,10 +742,10 @@ namespace SceneData
 
 											SceneDataProtocols( const TXString& geometry, const TXString& name, const TXString& type, const TXString& version, const ETransmissionType& transmision );
 
-		TXString							GetGeometry() const;
-		TXString							GetName() const;
-		TXString							GetType() const;
-		TXString							GetVersion() const;
+		const TXString&						GetGeometry() const;
+		const TXString&						GetName() const;
+		const TXString&						GetType() const;
+		const TXString&						GetVersion() const;
 		ETransmissionType					GetTransmission() const;
 	};
 	typedef std::vector<SceneDataProtocols>	SceneDataProtocolsArray;
-- 
2.43.0


From bda3aeeab28d9ad45aaee4b4d8fae8470d6cc87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 08/49] fix: initialise the values of a new mapping

---
 src/SceneDataExchange.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/SceneDataExchange.h b/src/SceneDataExchange.h
index 24c3ae7..61df832 100644
--- a/src/SceneDataExchange.h
+++ b/src/SceneDataExchange.h
@@ -348,11 +348,11 @@ namespace SceneData
 	private:
 
 		SceneDataGUID					fLinkedDefUuid;
-		Uint32							fUx;
-		Uint32							fUy;
-		Uint32							fOx;
-		Uint32							fOy;
-		double							fRz;
+		Uint32							fUx = 0;
+		Uint32							fUy = 0;
+		Uint32							fOx = 0;
+		Uint32							fOy = 0;
+		double							fRz = 0;
 		
 	public:
 		virtual SceneDataGUID			GetLinkedDefUuid();
-- 
2.43.0


From d8677b6d8e449e36fc7f463ff7ed0d87f94b4143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 09/49] fix: a symbol definition knows about symbols that were
 added through the API

---
 src/SceneDataExchange.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 4b4b054..11ede8a 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -547,6 +547,8 @@ void SceneDataSymDefObj::Add(SceneDataGeoInstanceObjPtr object)
 {
 	ASSERTN(kEveryone, object != nullptr);
 	if (! object) { return; }
+
+	if (object->IsSymDef()) { fContainsSymbolGeometry = true; }
 	
 	
 	ASSERTN(kEveryone, object->GetObjectType() == eSymbol || object->GetObjectType() == eGeometryObj);
-- 
2.43.0


From a45049353001e4aee67ef0e4e1e0afbcc007f735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 10/49] fix: resolve references independent of the spelling of
 a UUID

---
 src/SceneDataExchange.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 11ede8a..98e2a96 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -12,6 +12,15 @@ using namespace SceneData;
 static std::function<void( bool& )> fAbortCallback;
 static std::mutex fAbortCallbackMutex;
 
+// The same UUID can be spelled in upper or lower case, so references are compared in one spelling
+static TXString UnifyUuidSpelling(const TXString& uuid)
+{
+	VectorworksMVR::VWFC::Tools::VWUUID uuidObj;
+	if (uuid.GetLength() == 36 && uuidObj.FromString(uuid, false)) { return uuidObj.ToString(false); }
+
+	return uuid;
+}
+
 SceneDataGUID::SceneDataGUID(const TXString& uuid)
 {
 	ASSERTN(kEveryone, uuid != "");
@@ -3005,7 +3014,7 @@ SceneDataSymDefObjPtr SceneDataExchange::ReadSymDefObject(const IXMLFileNodePtr&
 	newSymDef->ReadFromNode(node, this);
 	
 	fSymDefObjs.push_back( newSymDef );
-	fSymDefMap[uuid] = newSymDef;
+	fSymDefMap[UnifyUuidSpelling(uuid)] = newSymDef;
 
 	return newSymDef;
 }
@@ -3941,8 +3950,8 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 	// Resolve pointers from uuids
 	for (SceneDataFixtureObjPtr fixture : fFixtures)
 	{
-		TXString focusUuid		= fixture->GetUnresolvedFocusUUID();
-		TXString postionUuid	= fixture->GetUnresolvedPositionUUID();
+		TXString focusUuid		= UnifyUuidSpelling(fixture->GetUnresolvedFocusUUID());
+		TXString postionUuid	= UnifyUuidSpelling(fixture->GetUnresolvedPositionUUID());
 		
 		if (focusUuid.IsEmpty() == false)
 		{
@@ -3993,7 +4002,7 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 	// Resolve classes from uuids
 	for (SceneDataObjWithMatrixPtr scObj : fSceneObjects)
 	{
-		TXString classUuid		= scObj->GetUnresolvedClass();
+		TXString classUuid		= UnifyUuidSpelling(scObj->GetUnresolvedClass());
 		
 		if (classUuid.IsEmpty() == false)
 		{
@@ -4041,7 +4050,7 @@ void SceneDataExchange::ResolveSymbols(const SceneDataGeometryObjArray& geometri
 			SceneDataSymbolObjPtr symObj = static_cast<SceneDataSymbolObjPtr>(geoObj);
 
 			// A symbol may refer to a definition that is not part of the file
-			TSymDefMap::const_iterator it = fSymDefMap.find(symObj->GetUnresolvedSymDef());
+			TSymDefMap::const_iterator it = fSymDefMap.find(UnifyUuidSpelling(symObj->GetUnresolvedSymDef()));
 
 			ASSERTN(kEveryone, it != fSymDefMap.end());
 			if (it != fSymDefMap.end()) { symObj->SetSymDef(it->second); }
-- 
2.43.0


From 3151a98267044da549ec6b817e19b9fff3ef475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:50 +0000
Subject: [PATCH 11/49] fix: names of DMX channels follow their geometry and
 attribute after the first query

---
 src/GDTFManager.cpp | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 6d3c762..ea87e12 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -5646,19 +5646,20 @@ TXString GdtfDmxChannel::GetNodeName()
 
 const TXString& GdtfDmxChannel::GetName()
 {
-	if(fName_AutoGenerated.IsEmpty())
+	// The name depends on the geometry and the first attribute, so do not keep the name from the first query
+	TXString dmxChannelName;
+	if(fGeomRef) { dmxChannelName += fGeomRef->GetName(); }
+	dmxChannelName += "_";
+	for (GdtfDmxLogicalChannelPtr logicalChannel : fLogicalChannels)
 	{
-		TXString dmxChannelName;
-		if(fGeomRef) { dmxChannelName += fGeomRef->GetName(); }
-		dmxChannelName += "_";
-		if(fLogicalChannels.size() > 0) { dmxChannelName += fLogicalChannels[0]->GetAttribute()->GetName(); }
-		
-		this->SetName(dmxChannelName);
-
-		ASSERTN(kEveryone, fGeomRef != nullptr);
-		ASSERTN(kEveryone, fLogicalChannels.size() > 0);
+		if(logicalChannel->GetAttribute()) { dmxChannelName += logicalChannel->GetAttribute()->GetName(); break; }
 	}
 
+	this->SetName(dmxChannelName);
+
+	ASSERTN(kEveryone, fGeomRef != nullptr);
+	ASSERTN(kEveryone, fLogicalChannels.size() > 0);
+
 	return fName_AutoGenerated;
 }
 
@@ -5947,14 +5948,13 @@ TXString GdtfDmxLogicalChannel::GetNodeName()
 
 const TXString& GdtfDmxLogicalChannel::GetName()
 {
-	if(fName_AutoGenerated.IsEmpty())
-	{
-		TXString name;
-		ASSERTN(kEveryone, fAttribute != nullptr);
-		if(fAttribute){ name +=fAttribute->GetName(); }
+	TXString name;
+	ASSERTN(kEveryone, fAttribute != nullptr);
+	if(fAttribute){ name +=fAttribute->GetName(); }
+
+	// The name follows the attribute, so do not keep the name from the first query
+	this->SetName(name);
 
-		this->SetName(name);
-	}
 	return fName_AutoGenerated;
 }
 
-- 
2.43.0


From d931733ed6a01d4b5e8c2422faa9a5996fa9f7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:50 +0000
Subject: [PATCH 12/49] fix: resolve the main attribute of attributes without
 feature

---
 src/GDTFManager.cpp | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index ea87e12..f93d9ed 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -8700,24 +8700,25 @@ void GdtfFixture::ResolveAttribRefs()
 		// Attributes.Feature
 		GdtfFeaturePtr featPtr = nullptr;
 		TXString unresolvedFeat = attr->GetUnresolvedFeature();
-		if(unresolvedFeat.IsEmpty()) { continue; }
-
-		for (GdtfFeatureGroupPtr featGrp : fFeatureGroups)
-		{	
-			if(CheckAbort()) { return; }
-			for (GdtfFeaturePtr feat : featGrp->GetFeatureArray() )
-			{				
-				if (unresolvedFeat == feat->GetNodeReference() ) { featPtr = feat; break; }
-			}
-		}
-		ASSERTN(kEveryone, featPtr != nullptr);
-		if (featPtr != nullptr)	{ attr->SetFeature (featPtr); }
-		else
+		if( ! unresolvedFeat.IsEmpty())
 		{
-			IXMLFileNodePtr node;
-			attr->GetNode(node);
-			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eAttributeUnresolvedFeature, node);
-			SceneData::GdtfFixture::AddError(error);
+			for (GdtfFeatureGroupPtr featGrp : fFeatureGroups)
+			{	
+				if(CheckAbort()) { return; }
+				for (GdtfFeaturePtr feat : featGrp->GetFeatureArray() )
+				{				
+					if (unresolvedFeat == feat->GetNodeReference() ) { featPtr = feat; break; }
+				}
+			}
+			ASSERTN(kEveryone, featPtr != nullptr);
+			if (featPtr != nullptr)	{ attr->SetFeature (featPtr); }
+			else
+			{
+				IXMLFileNodePtr node;
+				attr->GetNode(node);
+				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eAttributeUnresolvedFeature, node);
+				SceneData::GdtfFixture::AddError(error);
+			}
 		}
 		
 		// ------------------------------------------------------------------------------------------
-- 
2.43.0


From 7d22ce53a914e41491f9db00ed4d6f1d59f92963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:50 +0000
Subject: [PATCH 13/49] fix: SetType of a connector sets the type

---
 src/Implementation/CGdtfConnector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Implementation/CGdtfConnector.cpp b/src/Implementation/CGdtfConnector.cpp
index 69ae7d0..9ea1a32 100644
--- a/src/Implementation/CGdtfConnector.cpp
+++ b/src/Implementation/CGdtfConnector.cpp
@@ -82,7 +82,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfConnectorImpl::SetType(MvrString
 	// Check if valid
 	if(!fConnector) return kVCOMError_NotInitialized;
 
-    fConnector->SetName(type);
+    fConnector->SetType(type);
 
 	return kVCOMError_NoError;
 }
-- 
2.43.0


From 08a9dec6a47d75201f1c9769ef2b07532696984b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:09 +0000
Subject: [PATCH 14/49] fix: look up sub physical units in the attribute of the
 channel function

---
 src/GDTFManager.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index f93d9ed..947e7ba 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -9280,7 +9280,16 @@ void GdtfFixture::ResolveDmxSubChannelSetRefs(GdtfDmxChannelFunctionPtr channelF
         TXString unresolvedSubPhysicalUnitRef = subChannelSet->GetUnresolvedSubPhysicalUnitRef();
         if (!unresolvedSubPhysicalUnitRef.IsEmpty()) 
         {
-            GdtfSubPhysicalUnit* subPhysicalUnit = getSubPhysicalUnitByRef(unresolvedSubPhysicalUnitRef);
+            GdtfSubPhysicalUnit* subPhysicalUnit = nullptr;
+            // The type is only unique within the attribute of the channel function
+            if (channelFunction->GetAttribute())
+            {
+                for (GdtfSubPhysicalUnitPtr unit : channelFunction->GetAttribute()->GetSubPhysicalUnitArray())
+                {
+                    if (unit->GetNodeReference() == unresolvedSubPhysicalUnitRef) { subPhysicalUnit = unit; break; }
+                }
+            }
+            if (subPhysicalUnit == nullptr) { subPhysicalUnit = getSubPhysicalUnitByRef(unresolvedSubPhysicalUnitRef); }
             subChannelSet->SetSubPhysicalUnit(subPhysicalUnit);
         }
 
-- 
2.43.0


From 0918815ead78b9bdf819c2527578df2285f3d0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:09 +0000
Subject: [PATCH 15/49] fix: do not dereference missing references of macro
 values and RDM personalities on export

---
 src/GDTFManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 947e7ba..86ba2df 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -11054,7 +11054,7 @@ void GdtfDMXPersonality::OnPrintToFile(IXMLFileNodePtr pNode)
     //------------------------------------------------------------------------------------
     // Print the attributes
     pNode->SetNodeAttributeValue(XML_GDTF_DMXPersonalityValue, GdtfConverter::ConvertHexValue(fValue));
-    pNode->SetNodeAttributeValue(XML_GDTF_DMXPersonalityDMXMode, fDMXMode->GetModeName() );
+    if (fDMXMode) { pNode->SetNodeAttributeValue(XML_GDTF_DMXPersonalityDMXMode, fDMXMode->GetModeName() ); }
 }
 
 void GdtfDMXPersonality::OnReadFromNode(const IXMLFileNodePtr& pNode)
@@ -12132,7 +12132,7 @@ void SceneData::GdtfMacroVisualValue::OnPrintToFile(IXMLFileNodePtr pNode)
 	//------------------------------------------------------------------------------------
 	// Print the attributes
 	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrValue, GdtfConverter::ConvertDMXValue(fDmxValue, resolution));
-	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrChanFunc, fChannelFunctionRef->GetNodeReference() );
+	if(fChannelFunctionRef) { pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrChanFunc, fChannelFunctionRef->GetNodeReference() ); }
 }
 
 void SceneData::GdtfMacroVisualValue::OnReadFromNode(const IXMLFileNodePtr& pNode)
-- 
2.43.0


From 84e753bcd0255fd37a73e27882d131eeb61a0240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:40 +0000
Subject: [PATCH 16/49] fix: initialise the values of GDTF objects that only
 some constructors set

---
 src/GDTFManager.h | 84 +++++++++++++++++++++++------------------------
 1 file changed, 42 insertions(+), 42 deletions(-)

diff --git a/src/GDTFManager.h b/src/GDTFManager.h
index c060b09..429356d 100644
--- a/src/GDTFManager.h
+++ b/src/GDTFManager.h
@@ -375,13 +375,13 @@ namespace SceneData
 												GdtfWheelSlotAnimationSystem();
 												~GdtfWheelSlotAnimationSystem();
 	private:
-		double									fP1_X;
-		double									fP1_Y;
-		double									fP2_X;
-		double									fP2_Y;
-		double									fP3_X;
-		double									fP3_Y;
-		double									fRadius;
+		double									fP1_X = 0;
+		double									fP1_Y = 0;
+		double									fP2_X = 0;
+		double									fP2_Y = 0;
+		double									fP3_X = 0;
+		double									fP3_Y = 0;
+		double									fRadius = 0;
 
     public:
         double									GetP1_X();
@@ -975,9 +975,9 @@ namespace SceneData
 												~GdtfGeometryDisplay();
 	private:
 		TXString								fTexture;
-		size_t									fWidth;
-		size_t									fHeight;
-		bool 									fIsCurved;
+		size_t									fWidth = 0;
+		size_t									fHeight = 0;
+		bool 									fIsCurved = false;
 
 	public:
 		virtual EGdtfObjectType					GetObjectType();
@@ -1031,15 +1031,15 @@ namespace SceneData
 	
 	private:
 		EGdtfLaserColorType 					fColorType;
-		double									fColor; //Wavelength
-		double									fOutputStrength;
+		double									fColor = 0; //Wavelength
+		double									fOutputStrength = 0;
 		GdtfPhysicalEmitter*					fEmitter;
-		double 									fBeamDiameter;
-		double									fBeamDivergenceMin;
-		double									fBeamDivergenceMax;
-		double									fScanAnglePan;
-		double									fScanAngleTilt;
-		double									fScanSpeed;
+		double 									fBeamDiameter = 0;
+		double									fBeamDivergenceMin = 0;
+		double									fBeamDivergenceMax = 0;
+		double									fScanAnglePan = 0;
+		double									fScanAngleTilt = 0;
+		double									fScanSpeed = 0;
 
 		TXString 								fUnresolvedEmitter;
 
@@ -1094,8 +1094,8 @@ namespace SceneData
 												~GdtfPinPatch();
 	private:
 		GdtfGeometryWiringObjectPtr				fToWiringObject;
-		size_t									fFromPin;
-		size_t									fToPin;
+		size_t									fFromPin = 0;
+		size_t									fToPin = 0;
 
 		TXString								fUnresolvedWiringObject;
 
@@ -1209,7 +1209,7 @@ namespace SceneData
 												GdtfGeometryInventory(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent);
 												~GdtfGeometryInventory();
 	private:
-		size_t									fCount;
+		size_t									fCount = 0;
 
 	public:
 		virtual EGdtfObjectType					GetObjectType();
@@ -1234,10 +1234,10 @@ namespace SceneData
 	
 	private:
 		GdtfGeometry*   						fLinkedGeometry;
-		EGdtfStructureType 						fStructureType;
-		EGdtfCrossSectionType 					fCrossSectionType;
-		double									fCrossSectionHeight; //Tube
-		double									fCrossSectionWallThickness; //Tube
+		EGdtfStructureType 						fStructureType = EGdtfStructureType::CenterLineBased;
+		EGdtfCrossSectionType 					fCrossSectionType = EGdtfCrossSectionType::TrussFramework;
+		double									fCrossSectionHeight = 0; //Tube
+		double									fCrossSectionWallThickness = 0; //Tube
 		TXString								fTrussCrossSection; //TrussFramework
 
 		TXString 								fUnresolvedLinkedGeometry;
@@ -1279,21 +1279,21 @@ namespace SceneData
 												~GdtfGeometrySupport();
 	
 	private:
-		EGdtfSupportType						fSupportType;
-		double 									fCapacityX;
-		double 									fCapacityY;
-		double 									fCapacityZ;
-		double 									fCapacityXX;
-		double 									fCapacityYY;
-		double 									fCapacityZZ;
+		EGdtfSupportType						fSupportType = EGdtfSupportType::Rope;
+		double 									fCapacityX = 0;
+		double 									fCapacityY = 0;
+		double 									fCapacityZ = 0;
+		double 									fCapacityXX = 0;
+		double 									fCapacityYY = 0;
+		double 									fCapacityZZ = 0;
 		TXString 								fRopeCrossSection; 	//Rope
 		VWPoint3D 								fRopeOffset; 		//Rope
-		double 									fResistanceX;		//GroundSupport
-		double 									fResistanceY;		//GroundSupport
-		double 									fResistanceZ;		//GroundSupport
-		double 									fResistanceXX;		//GroundSupport
-		double 									fResistanceYY;		//GroundSupport
-		double 									fResistanceZZ;		//GroundSupport
+		double 									fResistanceX = 0;		//GroundSupport
+		double 									fResistanceY = 0;		//GroundSupport
+		double 									fResistanceZ = 0;		//GroundSupport
+		double 									fResistanceXX = 0;		//GroundSupport
+		double 									fResistanceYY = 0;		//GroundSupport
+		double 									fResistanceZZ = 0;		//GroundSupport
 
 	public:
 		virtual EGdtfObjectType					GetObjectType();
@@ -1942,7 +1942,7 @@ namespace SceneData
 												~GdtfMacroDMXValue();
 	private:
 		TXString 								funresolvedValue;
-		DmxValue								fValue;
+		DmxValue								fValue = 0;
 		TXString								funresolvedDMXChannel;
 		GdtfDmxChannelPtr						fDMXChannel;
 	public:
@@ -2022,7 +2022,7 @@ namespace SceneData
 												~GdtfMacroVisualValue();
 	private:
 		TXString 								funresolvedValue;
-		DmxValue								fDmxValue;
+		DmxValue								fDmxValue = 0;
 		TXString								fUnresolvedChannelFunctionRef;
 		GdtfDmxChannelFunctionPtr				fChannelFunctionRef;
 	public:
@@ -2341,8 +2341,8 @@ namespace SceneData
 												GdtfMap(Uint32 key, Uint32 value);
 												~GdtfMap();
     private:
-        Uint32									fKey;
-		Uint32									fValue;
+        Uint32									fKey = 0;
+		Uint32									fValue = 0;
     public:
         virtual EGdtfObjectType					GetObjectType();
         // Getters
-- 
2.43.0


From c6dbe9dce326e1ae650f057212e6a6ed884f9545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:36 +0000
Subject: [PATCH 17/49] fix: references to nameless channel functions without
 attribute survive export

---
 src/GDTFManager.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 86ba2df..fb7ff11 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -6453,14 +6453,11 @@ TXString GdtfDmxChannelFunction::GetNodeReference()
 	TXString functionName = GetName();
 	if(functionName.IsEmpty())
 	{
-		ASSERTN(kEveryone, GetAttribute() != nullptr);
-		if(GetAttribute() != nullptr)
-		{
-			functionName = GetAttribute()->GetName();
-			functionName += " ";
-			functionName += TXString().itoa(GetNumberInParent());
-		}
-		
+		// This is the name the function gets when the file is read. There a function without attribute is linked to NoFeature.
+		if(GetAttribute() != nullptr)	{ functionName = GetAttribute()->GetName(); }
+		else							{ functionName = XML_GDTF_AttributeNoFeature_nullptr; }
+		functionName += " ";
+		functionName += TXString().itoa(GetNumberInParent());
 	}
 	return fParentLogicalChannel->GetNodeReference() + "." + functionName;
 }
-- 
2.43.0


From c4298a819c613871555d0647c1ae61a9e333f0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:32 +0000
Subject: [PATCH 18/49] fix: footprint of breaks without addresses and of
 references without breaks

---
 src/GDTFManager.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index fb7ff11..6c7d59a 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -5242,6 +5242,7 @@ TSint32Array GdtfDmxMode::GetBreakArray() const
 				if(geoRef->GetLinkedGeometry() == channel->GetGeomRef())
 				{
 					TGdtfBreakArray refBreaks = geoRef->GetBreakArray();
+					if(refBreaks.empty()) { continue; }
 					if(std::find(breaks.begin(), breaks.end(), refBreaks.back()->GetDmxBreak()) == breaks.end())
 					{
 						breaks.push_back(refBreaks.back()->GetDmxBreak());
@@ -5351,8 +5352,16 @@ size_t GdtfDmxMode::GetFootPrintForBreak(size_t breakId)
 			if(foundIndex != breakIdsOfReference.end())
 			{
 				size_t 				indexOfBreak 				= std::distance(breakIdsOfReference.begin(),foundIndex);
-				size_t 				offset 						= geoRef->GetBreakArray()[indexOfBreak]->GetDmxAddress()-1;
-				TGdtfGeometryArray  geometriesInReferencedTree 	= {refedGeo};
+				TGdtfBreakArray 	refBreaks					= geoRef->GetBreakArray();
+				TGdtfGeometryArray  geometriesInReferencedTree;
+				size_t 				offset 						= 0;
+
+				// There is no address for the channels when the reference does not have the break
+				if(indexOfBreak < refBreaks.size())
+				{
+					offset = refBreaks[indexOfBreak]->GetDmxAddress()-1;
+					geometriesInReferencedTree.push_back(refedGeo);
+				}
 
 				while (geometriesInReferencedTree.size() > 0)
 				{
@@ -5375,7 +5384,7 @@ size_t GdtfDmxMode::GetFootPrintForBreak(size_t breakId)
 			}
 
 			// if the channel of a child geometry has the break value overwrite and the last break of the ref has a matching break Id, then add addresses + offset 
-			if(overwrite)
+			if(overwrite && ! geoRef->GetBreakArray().empty())
 			{
 				GdtfBreakPtr overwriteBreak = geoRef->GetBreakArray().back();
 				if(overwriteBreak->GetDmxBreak() == (Sint32)breakId)
@@ -5411,7 +5420,10 @@ size_t GdtfDmxMode::GetFootPrintForBreak(size_t breakId)
 		}
 	}
 
-	DMXAddress max = 0, min = 512;
+	// Virtual channels do not have an address
+	if(addresses.empty()) { return 0; }
+
+	DMXAddress max = addresses.front(), min = addresses.front();
 	for (DMXAddress adr : addresses)
 	{
 		if(adr > max) max = adr;
-- 
2.43.0


From 947d38f79412c0bdd9e4d2e4639bc1c829ff18a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:32 +0000
Subject: [PATCH 19/49] fix: geometry references to their own parent no longer
 hang the break collection

---
 src/GDTFManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 6c7d59a..b942830 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -5219,7 +5219,8 @@ TSint32Array GdtfDmxMode::GetBreakArray() const
 			{
 				GdtfGeometryReferencePtr geoRef = static_cast<GdtfGeometryReferencePtr>( geometry );
 				ASSERTN( kEveryone, geoRef != nullptr );
-				if ( geoRef )
+				// Follow every reference only once, so that references to their own parent do not end in a loop
+				if ( geoRef && std::find( geometryRefs.begin(), geometryRefs.end(), geoRef ) == geometryRefs.end() )
 				{
 					geometrysToCheck.push_back( geoRef->GetLinkedGeometry() );
 					geometryRefs.push_back( geoRef );
-- 
2.43.0


From 7f75436b54481de167d246642be2130a11adb70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 20/49] fix: packages carry the package version instead of
 uninitialised memory

---
 src/mvrxchange/mvrxchange_message.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 71787b6..866da4c 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -30,6 +30,7 @@ T swap_endian(T u)
 MVRxchangePacket::MVRxchangePacket()
 {
     fFlag       = kMVR_Package_Flag;
+    fVersion    = 1;
     fNumber     = 0;
     fCount      = 0;
     fType       = 0;
-- 
2.43.0


From f37eeea76eeb65e4e9b24355b1260de4ca1f11b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 21/49] fix: buffer of a received package has room for header
 and body

---
 src/mvrxchange/mvrxchange_client.cpp  |  6 +++++-
 src/mvrxchange/mvrxchange_message.cpp | 13 +++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_client.cpp b/src/mvrxchange/mvrxchange_client.cpp
index 605b92b..d8942bc 100644
--- a/src/mvrxchange/mvrxchange_client.cpp
+++ b/src/mvrxchange/mvrxchange_client.cpp
@@ -46,7 +46,11 @@ bool MVRxchangeClient::ReadMessage(SendResult& res, std::chrono::steady_clock::d
     
     if(res.success)
     {
-        res.message.DecodeHeader();
+        if(!res.message.DecodeHeader())
+        {
+            res.error = boost::asio::error::make_error_code(boost::asio::error::invalid_argument);
+            return res.success = false;
+        }
 
         boost::asio::async_read(fSocket,
         boost::asio::buffer(res.message.GetBody(), res.message.GetBodyLength()),
diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 866da4c..d004219 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -113,8 +113,17 @@ bool MVRxchangePacket::DecodeHeader()
     fType= swap_endian(fType);
     fBodyLength = swap_endian(fBodyLength);
 
-    // Prepare Buffer
-    fData->GrowTo(fBodyLength);
+    // Prepare Buffer, the body follows the header
+    if (fBodyLength > SIZE_MAX - total_header_length - 1) { fBodyLength = 0; return false; }
+    try
+    {
+        fData->GrowTo(total_header_length + fBodyLength);
+    }
+    catch (const std::bad_alloc&)
+    {
+        fBodyLength = 0;
+        return false;
+    }
 
     return true;
 }
-- 
2.43.0


From 507878ee9cb67b6218180afb984c1a10692816fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 22/49] fix: messages with missing keys, a type that is no text
 or long texts are reported, not undefined behaviour

---
 src/mvrxchange/mvrxchange_message.cpp | 62 +++++++++++++--------------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index d004219..1b3d690 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -177,18 +177,18 @@ void MVR_COMMIT_ToJson(const IMVRxchangeService::MVR_COMMIT_MESSAGE& msg, nlohma
 
 void MVR_COMMIT_FromJson(const nlohmann::json& payload, IMVRxchangeService::MVR_COMMIT_MESSAGE& in)
 {
-    strcpy(in.Comment, payload["Comment"].get<std::string>().c_str());
-    in.VersionMajor= payload["verMajor"];
-    in.VersionMinor= payload["verMinor"];
-    in.FileSize= payload["FileSize"];
-    strcpy(in.FileName, payload["FileName"].get<std::string>().c_str());
+    in.Comment = payload.at("Comment").get<std::string>().c_str();
+    in.VersionMajor= payload.at("verMajor");
+    in.VersionMinor= payload.at("verMinor");
+    in.FileSize= payload.at("FileSize");
+    in.FileName = payload.at("FileName").get<std::string>().c_str();
 
-    SceneData::GdtfConverter::ConvertUUID(payload["FileUUID"].get<std::string>(), in.FileUUID);
-    SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.StationUUID);
+    SceneData::GdtfConverter::ConvertUUID(payload.at("FileUUID").get<std::string>(), in.FileUUID);
+    SceneData::GdtfConverter::ConvertUUID(payload.at("StationUUID").get<std::string>(), in.StationUUID);
 
     in.ForStationsUUID.clear();
     // TODO
-    for(const auto& e : payload["ForStationsUUID"])
+    for(const auto& e : payload.at("ForStationsUUID"))
     {
         in.ForStationsUUID.emplace_back();
         if(!SceneData::GdtfConverter::ConvertUUID(e.get<std::string>(), in.ForStationsUUID.back())){
@@ -352,14 +352,14 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
     if (payload["Type"] == "MVR_JOIN")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_JOIN;
-        in.JOIN.VersionMajor = HandleStringNumber(payload["verMajor"]);
-        in.JOIN.VersionMinor = HandleStringNumber(payload["verMinor"]);
-        strcpy(in.JOIN.Provider, payload["Provider"].get<std::string>().c_str());
-        strcpy(in.JOIN.StationName, payload["StationName"].get<std::string>().c_str());
-        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.JOIN.StationUUID);
+        in.JOIN.VersionMajor = HandleStringNumber(payload.at("verMajor"));
+        in.JOIN.VersionMinor = HandleStringNumber(payload.at("verMinor"));
+        in.JOIN.Provider = payload.at("Provider").get<std::string>().c_str();
+        in.JOIN.StationName = payload.at("StationName").get<std::string>().c_str();
+        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload.at("StationUUID").get<std::string>(), in.JOIN.StationUUID);
 
         in.JOIN.Commits.clear();
-        for (auto &it : payload["Commits"])
+        for (auto &it : payload.at("Commits"))
         {
             in.JOIN.Commits.emplace_back();
             MVR_COMMIT_FromJson(it, in.JOIN.Commits.back());
@@ -368,17 +368,17 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
     else if (payload["Type"] == "MVR_JOIN_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_JOIN_RET;
-        in.JOIN.VersionMajor = HandleStringNumber(payload["verMajor"]);
-        in.JOIN.VersionMinor = HandleStringNumber(payload["verMinor"]);
-        strcpy(in.JOIN.Provider, payload["Provider"].get<std::string>().c_str());
-        strcpy(in.JOIN.StationName, payload["StationName"].get<std::string>().c_str());
-        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.JOIN.StationUUID);
+        in.JOIN.VersionMajor = HandleStringNumber(payload.at("verMajor"));
+        in.JOIN.VersionMinor = HandleStringNumber(payload.at("verMinor"));
+        in.JOIN.Provider = payload.at("Provider").get<std::string>().c_str();
+        in.JOIN.StationName = payload.at("StationName").get<std::string>().c_str();
+        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload.at("StationUUID").get<std::string>(), in.JOIN.StationUUID);
 
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
 
         in.JOIN.Commits.clear();
-        for (auto &it : payload["Commits"])
+        for (auto &it : payload.at("Commits"))
         {
             in.JOIN.Commits.emplace_back();
             MVR_COMMIT_FromJson(it, in.JOIN.Commits.back());
@@ -392,17 +392,17 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
     else if (payload["Type"] == "MVR_COMMIT_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_COMMIT_RET;
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
     }
     else if (payload["Type"] == "MVR_REQUEST")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_REQUEST;
-        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["FileUUID"].get<std::string>(), in.REQUEST.FileUUID);
+        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload.at("FileUUID").get<std::string>(), in.REQUEST.FileUUID);
 
         in.REQUEST.FromStationUUID.clear();
         // TODO
-        for (const auto &e : payload["FromStationUUID"])
+        for (const auto &e : payload.at("FromStationUUID"))
         {
             in.REQUEST.FromStationUUID.emplace_back();
             if (!SceneData::GdtfConverter::ConvertUUID(e.get<std::string>(), in.REQUEST.FromStationUUID.back()))
@@ -414,8 +414,8 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
     else if (payload["Type"] == "MVR_REQUEST_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_REQUEST_RET;
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
     }
     else if (payload["Type"] == "MVR_LEAVE")
     {
@@ -432,8 +432,8 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
     else if (payload["Type"] == "MVR_LEAVE_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_LEAVE_RET;
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
     }else{
         throw std::runtime_error("Unable to parse payload type correctly");
     }
@@ -462,7 +462,7 @@ void MVRxchangePacket::ToExternalMessage(VectorworksMVR::IMVRxchangeService::IMV
             return;
         }
 
-        if (payload.type() != nlohmann::json::value_t::object || !payload.contains("Type"))
+        if (payload.type() != nlohmann::json::value_t::object || !payload.contains("Type") || !payload["Type"].is_string())
         {
             in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_UNDEFINED;
             in.RetIsOK = false;
-- 
2.43.0


From ff92e2d8749c5509b1e3aa203b588dc0a6aeb136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 23/49] fix: undefined messages and texts that are no UTF-8 are
 sent instead of throwing

---
 src/mvrxchange/mvrxchange_message.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 1b3d690..448c803 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -274,6 +274,9 @@ void MVRxchangePacket::FromExternalMessage(const VectorworksMVR::IMVRxchangeServ
 
         break;
     default:
+        payload["Type"]             = "MVR_UNDEFINED";
+        payload["OK"]               = false;
+        payload["Message"]          = in.RetError;
         break;
     }
 
@@ -312,8 +315,8 @@ void MVRxchangePacket::FromExternalMessage(const VectorworksMVR::IMVRxchangeServ
     }
     else
     {
-        MVRXCHANGE_DEBUG("outgoing message:\n" << payload.dump(4));
-        std::string s = payload.dump();
+        MVRXCHANGE_DEBUG("outgoing message:\n" << payload.dump(4, ' ', false, nlohmann::json::error_handler_t::replace));
+        std::string s = payload.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
         fBodyLength = s.size();
         fType       = kMVR_Package_JSON_TYPE;
 
-- 
2.43.0


From 5bfc5fa1e2a009ab161a61d5f76ccc913e22400b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 24/49] fix: peers that reset the connection early no longer
 end the server

---
 src/mvrxchange/mvrxchange_client.cpp  | 6 ++++--
 src/mvrxchange/mvrxchange_server.cpp  | 5 ++++-
 src/mvrxchange/mvrxchange_session.cpp | 6 ++++--
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_client.cpp b/src/mvrxchange/mvrxchange_client.cpp
index d8942bc..a179ba4 100644
--- a/src/mvrxchange/mvrxchange_client.cpp
+++ b/src/mvrxchange/mvrxchange_client.cpp
@@ -65,9 +65,11 @@ bool MVRxchangeClient::ReadMessage(SendResult& res, std::chrono::steady_clock::d
 
     if(res.success)
     {
+        boost::system::error_code endpointError; // the peer may be gone already
+        const tcp::endpoint endpoint = this->fSocket.remote_endpoint(endpointError);
         res.messageInfo = TCPMessageInfo {
-            this->fSocket.remote_endpoint().port(),
-            this->fSocket.remote_endpoint().address().to_string()
+            endpoint.port(),
+            endpoint.address().to_string()
         };
     }
 
diff --git a/src/mvrxchange/mvrxchange_server.cpp b/src/mvrxchange/mvrxchange_server.cpp
index 31f95fe..f82ca2b 100644
--- a/src/mvrxchange/mvrxchange_server.cpp
+++ b/src/mvrxchange/mvrxchange_server.cpp
@@ -38,7 +38,10 @@ void MVRxchangeServer::DoAccept()
     {
         if (!ec)
         {
-            MVRXCHANGE_DEBUG("incoming message from: " << socket.remote_endpoint().address().to_string() << ":" << std::to_string(socket.remote_endpoint().port()));
+            boost::system::error_code endpointError; // the peer may be gone already
+            const tcp::endpoint endpoint = socket.remote_endpoint(endpointError);
+            (void)endpoint;
+            MVRXCHANGE_DEBUG("incoming message from: " << endpoint.address().to_string() << ":" << std::to_string(endpoint.port()));
             auto session = std::make_shared<MVRxchangeSession>(std::move(socket), fImpl, this);
 
             AddSession(session);
diff --git a/src/mvrxchange/mvrxchange_session.cpp b/src/mvrxchange/mvrxchange_session.cpp
index edde755..076c953 100644
--- a/src/mvrxchange/mvrxchange_session.cpp
+++ b/src/mvrxchange/mvrxchange_session.cpp
@@ -39,9 +39,11 @@ void MVRxchangeSession::DoRead()
                     IMVRxchangeService::IMVRxchangeMessage out;
                     fReadMsg.ToExternalMessage(out);
 
+                    boost::system::error_code endpointError; // the peer may be gone already
+                    const tcp::endpoint endpoint = this->fSocket.remote_endpoint(endpointError);
                     TCPMessageInfo info {
-                        this->fSocket.remote_endpoint().port(),
-                        this->fSocket.remote_endpoint().address().to_string()
+                        endpoint.port(),
+                        endpoint.address().to_string()
                     };
                     IMVRxchangeService::IMVRxchangeMessage in = fImpl->TCP_OnIncommingMessage(out, info);
                     delete[] out.BufferToFile;
-- 
2.43.0


From 9819f1590a852d2426ed0dbdcbbbf0bf55f5b12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 25/49] fix: sending a file with Send_message no longer frees
 its buffer twice

---
 src/mvrxchange/mvrxchange_message.cpp | 1 -
 src/mvrxchange/mvrxchange_session.cpp | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 448c803..daefd38 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -293,7 +293,6 @@ void MVRxchangePacket::FromExternalMessage(const VectorworksMVR::IMVRxchangeServ
             fBodyLength = in.BufferToFileLength;
             fData->GrowTo(fBodyLength + total_header_length);
             memcpy(GetBody(), in.BufferToFile, fBodyLength);
-            delete[] in.BufferToFile;
         }
         else
         {
diff --git a/src/mvrxchange/mvrxchange_session.cpp b/src/mvrxchange/mvrxchange_session.cpp
index 076c953..9b3df8e 100644
--- a/src/mvrxchange/mvrxchange_session.cpp
+++ b/src/mvrxchange/mvrxchange_session.cpp
@@ -50,6 +50,7 @@ void MVRxchangeSession::DoRead()
                     
                     MVRxchangePacket in_msg;
                     in_msg.FromExternalMessage(in);
+                    if (in.Type == IMVRxchangeService::MVRxchangeMessageType::MVR_REQUEST_RET && in.RetIsOK) { delete[] in.BufferToFile; }
                     Deliver(in_msg);
                 }
                 else
-- 
2.43.0


From c24403cc2a48a160df436bbec60340ca640c2f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 26/49] fix: GetLocalServiceAt refuses the index one past the
 last service

---
 src/mvrxchange/CMVRxchangeService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 1eb906f..d82ed55 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -177,7 +177,7 @@ VCOMError VCOM_CALLTYPE  CMVRxchangeServiceImpl::QueryLocalServices(size_t& out_
 VCOMError VCOM_CALLTYPE VectorworksMVR::CMVRxchangeServiceImpl::GetLocalServiceAt(size_t index, ConnectToLocalServiceArgs& outLocalService)
 {
 	std::lock_guard<std::mutex> lock (fQueryLocalServicesResult_mtx);
-	if ( fQueryLocalServicesResult.size() < index)
+	if ( fQueryLocalServicesResult.size() <= index)
 	{
 		return kVCOMError_Failed;
 	}
-- 
2.43.0


From 8b7c713769df23734c51c090213693c473f0629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:34 +0000
Subject: [PATCH 27/49] fix: QueryLocalServices no longer misses the end of its
 lookup and waits forever

---
 src/mvrxchange/CMVRxchangeService.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index d82ed55..e80e125 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -6,6 +6,7 @@
 #include "../mvrxchange/mvrxchange_prefix.h"
 #include "../mvrxchange/mvrxchange_client.h"
 #include "../XmlFileHelper.h"
+#include <future>
 #include <boost/bind.hpp>
 #include <boost/date_time/posix_time/posix_time.hpp>
 #include <unordered_map>
@@ -152,14 +153,12 @@ VCOMError VCOM_CALLTYPE  CMVRxchangeServiceImpl::QueryLocalServices(size_t& out_
 
 	if(fmdns_Thread.joinable())
 	{
-		std::condition_variable cv;
-		std::mutex mut;
-		std::unique_lock<std::mutex> lock(mut);
-		boost::asio::post(fmdns_IO_Context, [this, &cv](){
+		std::promise<void> done;
+		boost::asio::post(fmdns_IO_Context, [this, &done](){
 			this->mDNS_Client_Task();
-			cv.notify_all();
+			done.set_value();
 		});
-		cv.wait(lock);
+		done.get_future().wait();
 	}else{
 		this->mDNS_Client_Task();
 	}
-- 
2.43.0


From a2f0d5947f110bb1ab930228c356187bf1ed6854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 28/49] fix: empty TXT records and TXT entries without '=' no
 longer throw or loop forever

---
 src/mvrxchange/CMVRxchangeService.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index e80e125..841c2b9 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -571,10 +571,13 @@ void CMVRxchangeServiceImpl::mDNS_Client_Task()
 		TXString uuid;
 
 		size_t ptr = 0;
-		do{
+		while(ptr < r.txt.size())
+		{
 			uint8_t len = r.txt[ptr];
 
 			std::string t = r.txt.substr(ptr + 1, len);
+			ptr += len + 1;
+
 			size_t eqIdx = t.find('=');
 			if(eqIdx == std::string::npos)
 			{
@@ -589,9 +592,7 @@ void CMVRxchangeServiceImpl::mDNS_Client_Task()
 			{
 				uuid = t.substr(eqIdx + 1);
 			}
-
-			ptr += len + 1;
-		}while(ptr < r.txt.size());
+		}
 
 		SceneData::GdtfConverter::ConvertUUID(uuid, localServ.StationUUID);
 		strcpy(localServ.StationName, name.GetCharPtr());
-- 
2.43.0


From 6c0079f8f5e6b3c949268d7cff4f235f1961baf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:07 +0000
Subject: [PATCH 29/49] fix: connecting again no longer starts an endless chain
 of mDNS lookups

---
 src/mvrxchange/CMVRxchangeService.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 841c2b9..cee261b 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -445,7 +445,9 @@ void CMVRxchangeServiceImpl::mDNS_Client_Tick()
 	mDNS_Client_Task();
 
 	fmdns_long_timer.expires_from_now(boost::posix_time::seconds(45));
-	fmdns_long_timer.async_wait(boost::bind(&CMVRxchangeServiceImpl::mDNS_Client_Tick, this));
+	fmdns_long_timer.async_wait([this](const boost::system::error_code& ec){
+		if (!ec) { this->mDNS_Client_Tick(); } // cancelled when the service is connected again
+	});
 }
 
 void CMVRxchangeServiceImpl::mDNS_Client_RFun()
-- 
2.43.0


From b77e030c33e84f269c239cd6716e2bf46373829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:51 +0000
Subject: [PATCH 30/49] fix: a station that leaves is removed from the group

---
 src/mvrxchange/CMVRxchangeService.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index cee261b..a92339b 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -334,17 +334,14 @@ IMVRxchangeService::IMVRxchangeMessage CMVRxchangeServiceImpl::TCP_OnIncommingMe
     }
 	else if(in.Type == MVRxchangeMessageType::MVR_LEAVE)
 	{
-		MVRxchangeGroupMember newItem;
-		if(GetSingleMemberOfService(in.LEAVE.FromStationUUID, newItem) != kVCOMError_NoError)
-		{
-			std::lock_guard<std::mutex> lock(fMvrGroupMutex);
-			fMVRGroup.erase(
-				std::remove_if(fMVRGroup.begin(), fMVRGroup.end(), [&newItem](const MVRxchangeGroupMember& it){
-					return it.stationUUID == newItem.stationUUID;
-				}),
-				fMVRGroup.end()
-			);
-		}
+		const MvrUUID& uuid = in.LEAVE.FromStationUUID;
+		std::lock_guard<std::mutex> lock(fMvrGroupMutex);
+		fMVRGroup.erase(
+			std::remove_if(fMVRGroup.begin(), fMVRGroup.end(), [&uuid](const MVRxchangeGroupMember& it){
+				return it.stationUUID == uuid;
+			}),
+			fMVRGroup.end()
+		);
 	}
 
 	IMVRxchangeService::IMVRxchangeMessage ret;
-- 
2.43.0


From 1dca6c1a48431fe111787bf8db2b48de56d7e7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:08 +0000
Subject: [PATCH 31/49] fix: leaving a session forgets its members and lookup

---
 src/mvrxchange/CMVRxchangeService.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index a92339b..309857e 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -129,6 +129,7 @@ VCOMError VectorworksMVR::CMVRxchangeServiceImpl::ConnectToLocalService(const Co
 
 VCOMError VectorworksMVR::CMVRxchangeServiceImpl::LeaveLocalService()
 {
+	const bool wasConnected = fServer != nullptr;
 	this->TCP_Stop();
     
 	SendMessageArgs leaveMessage;
@@ -143,6 +144,17 @@ VCOMError VectorworksMVR::CMVRxchangeServiceImpl::LeaveLocalService()
     }
     fmdns.clear();
 
+	{
+		std::lock_guard<std::mutex> lock(fMvrGroupMutex);
+		fMVRGroup.clear();
+	}
+
+	if (wasConnected)
+	{
+		// Others come and go until the next connect, which has to look again
+		std::lock_guard<std::mutex> lock(fQueryLocalServicesResult_mtx);
+		fIsInitialized = false;
+	}
 
 	return kVCOMError_NoError;
 }
-- 
2.43.0


From 73c872ae20b915e21e8c311cb831713e5a86a954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:42 +0000
Subject: [PATCH 32/49] fix: a station that joins is listed once, with where it
 is now, and not lost during a connect

---
 src/mvrxchange/CMVRxchangeService.cpp | 104 ++++++++++++++++++--------
 src/mvrxchange/CMVRxchangeService.h   |   7 ++
 2 files changed, 78 insertions(+), 33 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 309857e..d3f54f7 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -99,9 +99,9 @@ VCOMError VectorworksMVR::CMVRxchangeServiceImpl::ConnectToLocalService(const Co
 		this->mDNS_Client_Task();
 	}
 
+	for(const auto& member : GetMembersOfService(fCurrentService.Service))
 	{
-		std::lock_guard<std::mutex> lock(fMvrGroupMutex);
-		fMVRGroup = GetMembersOfService(fCurrentService.Service);
+		UpdateGroupMember(member);
 	}
 	
 	//---------------------------------------------------------------------------------------------
@@ -149,11 +149,10 @@ VCOMError VectorworksMVR::CMVRxchangeServiceImpl::LeaveLocalService()
 		fMVRGroup.clear();
 	}
 
-	if (wasConnected)
 	{
-		// Others come and go until the next connect, which has to look again
 		std::lock_guard<std::mutex> lock(fQueryLocalServicesResult_mtx);
-		fIsInitialized = false;
+		fPendingJoins.clear();
+		if (wasConnected) { fIsInitialized = false; } // Others come and go until the next connect, which has to look again
 	}
 
 	return kVCOMError_NoError;
@@ -310,43 +309,36 @@ void CMVRxchangeServiceImpl::TCP_Stop()
 IMVRxchangeService::IMVRxchangeMessage CMVRxchangeServiceImpl::TCP_OnIncommingMessage(const IMVRxchangeService::IMVRxchangeMessage& in, const TCPMessageInfo& data)
 {
     
-    if(in.Type == MVRxchangeMessageType::MVR_JOIN)
+    if(in.Type == MVRxchangeMessageType::MVR_JOIN && in.RetIsOK)
     {
+		{
+			std::lock_guard<std::mutex> lock(fQueryLocalServicesResult_mtx);
+			fPendingJoins.push_back(in.JOIN.StationUUID);
+		}
 
 		MVRxchangeGroupMember newItem;
 		if(GetSingleMemberOfService(in.JOIN.StationUUID, newItem) == kVCOMError_NoError)
 		{
-			std::lock_guard<std::mutex> lock(fMvrGroupMutex);
-			// In case Station sent message twice (e.g. to change their name)
-			auto it = std::find_if(fMVRGroup.begin(), fMVRGroup.end(), [&newItem](const MVRxchangeGroupMember& it){
-				return it.IP == newItem.IP && it.Port == newItem.Port;
-			});
-			
-			if(it != fMVRGroup.end())
-			{
-				*it = newItem; // changed name
-			}else
-			{
-				fMVRGroup.push_back(newItem);
-			}
-		}
-		else
-		{
-			auto& uuid = in.JOIN.StationUUID;
-			boost::asio::post(fmdns_IO_Context, [this, uuid](){
-				this->mDNS_Client_Task(); // Run, in case client was faster than task
-				MVRxchangeGroupMember newItem;
-				if(GetSingleMemberOfService(uuid, newItem) == kVCOMError_NoError)
-				{
-					std::lock_guard<std::mutex> lock(fMvrGroupMutex);
-					fMVRGroup.push_back(newItem);
-				}
-			});
+			UpdateGroupMember(newItem); // In case Station sent message twice (e.g. to change their name)
 		}
+
+		// Run, in case client was faster than task, or is not where it was before
+		boost::asio::post(fmdns_IO_Context, [this](){ this->ResolvePendingJoins(); });
     }
-	else if(in.Type == MVRxchangeMessageType::MVR_LEAVE)
+	else if(in.Type == MVRxchangeMessageType::MVR_LEAVE && in.RetIsOK)
 	{
 		const MvrUUID& uuid = in.LEAVE.FromStationUUID;
+		{
+			std::lock_guard<std::mutex> lock(fQueryLocalServicesResult_mtx);
+			fPendingJoins.erase(std::remove(fPendingJoins.begin(), fPendingJoins.end(), uuid), fPendingJoins.end());
+			fQueryLocalServicesResult.erase(
+				std::remove_if(fQueryLocalServicesResult.begin(), fQueryLocalServicesResult.end(), [&uuid](const ConnectToLocalServiceArgs& it){
+					return it.StationUUID == uuid;
+				}),
+				fQueryLocalServicesResult.end()
+			);
+		}
+
 		std::lock_guard<std::mutex> lock(fMvrGroupMutex);
 		fMVRGroup.erase(
 			std::remove_if(fMVRGroup.begin(), fMVRGroup.end(), [&uuid](const MVRxchangeGroupMember& it){
@@ -448,6 +440,52 @@ VCOMError CMVRxchangeServiceImpl::GetSingleMemberOfService(const MvrUUID& statio
 	return kVCOMError_Failed;
 }
 
+void CMVRxchangeServiceImpl::UpdateGroupMember(const MVRxchangeGroupMember& member)
+{
+	std::lock_guard<std::mutex> lock(fMvrGroupMutex);
+	auto it = std::find_if(fMVRGroup.begin(), fMVRGroup.end(), [&member](const MVRxchangeGroupMember& it){
+		return (it.IP == member.IP && it.Port == member.Port) ||
+			(it.stationUUID == member.stationUUID && !(member.stationUUID == MvrUUID()));
+	});
+
+	if(it != fMVRGroup.end())
+	{
+		*it = member;
+	}
+	else
+	{
+		fMVRGroup.push_back(member);
+	}
+}
+
+void CMVRxchangeServiceImpl::ResolvePendingJoins()
+{
+	std::vector<MvrUUID> joined;
+	{
+		std::lock_guard<std::mutex> lock(fQueryLocalServicesResult_mtx);
+		joined = fPendingJoins;
+	}
+	if(joined.empty()) { return; } // resolved together with an earlier one
+
+	mDNS_Client_Task();
+
+	for(const MvrUUID& uuid : joined)
+	{
+		{
+			std::lock_guard<std::mutex> lock(fQueryLocalServicesResult_mtx);
+			auto it = std::find(fPendingJoins.begin(), fPendingJoins.end(), uuid);
+			if(it == fPendingJoins.end()) { continue; } // left in the meantime
+			fPendingJoins.erase(it);
+		}
+
+		MVRxchangeGroupMember member;
+		if(GetSingleMemberOfService(uuid, member) == kVCOMError_NoError)
+		{
+			UpdateGroupMember(member);
+		}
+	}
+}
+
 void CMVRxchangeServiceImpl::mDNS_Client_Tick()
 {
 	MVRXCHANGE_DEBUG("mDNS_Client_Tick");
diff --git a/src/mvrxchange/CMVRxchangeService.h b/src/mvrxchange/CMVRxchangeService.h
index 982280e..2ecc41c 100644
--- a/src/mvrxchange/CMVRxchangeService.h
+++ b/src/mvrxchange/CMVRxchangeService.h
@@ -63,6 +63,7 @@ namespace VectorworksMVR
 		std::mutex 										fQueryLocalServicesResult_mtx;
 		std::vector<ConnectToLocalServiceArgs> 			fQueryLocalServicesResult;
 		bool											fIsInitialized = false;
+		std::vector<MvrUUID>							fPendingJoins;	// stations that joined, but are not looked up yet
 
 		MVRxchangeNetwork::MVRxchangeServer*			fServer;
 		ConnectToLocalServiceArgs						fCurrentService;
@@ -96,6 +97,12 @@ namespace VectorworksMVR
 			return GetMembersOfService(t);
 		}
 
+		// Adds the member or updates the one with the same address or UUID
+		void 								UpdateGroupMember(const MVRxchangeGroupMember& member);
+
+		// Looks up the stations that joined and are still there
+		void 								ResolvePendingJoins();
+
 		VCOMError 							GetSingleMemberOfService(const MvrUUID& stationUUID, MVRxchangeGroupMember& out);
 
 		// Filters duplicates and own mDNS-sockets
-- 
2.43.0


From 1db9122210e1caf04ec29195894cb32a502363a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:40 +0000
Subject: [PATCH 33/49] fix: two stations of one host in the same session are
 told apart

---
 mdns_cpp/include/mdns_cpp/mdns.hpp |  4 +++-
 mdns_cpp/src/mdns.cpp              | 17 ++++++++++-------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/mdns_cpp/include/mdns_cpp/mdns.hpp b/mdns_cpp/include/mdns_cpp/mdns.hpp
index 90c3f65..83824ea 100644
--- a/mdns_cpp/include/mdns_cpp/mdns.hpp
+++ b/mdns_cpp/include/mdns_cpp/mdns.hpp
@@ -35,9 +35,10 @@ struct unsorted_query_part_t {
   std::string addr;
   std::string canonicalName;
   T data;
+  size_t packet = 0; // which of the answers it came with
 
   unsorted_query_part_t() = default;
-  unsorted_query_part_t(const std::string& addr, const std::string& canonicalName, const T& data): addr(addr), canonicalName(canonicalName), data(data) {};
+  unsorted_query_part_t(const std::string& addr, const std::string& canonicalName, const T& data, size_t packet): addr(addr), canonicalName(canonicalName), data(data), packet(packet) {};
 
   bool operator==(const unsorted_query_part_t<T>& o) const{return addr == o.addr && canonicalName == o.canonicalName && data == o.data;};
 };
@@ -57,6 +58,7 @@ struct unsorted_query_t {
   std::vector<unsorted_query_part_t<std::string>> aRecords;
   std::vector<unsorted_query_part_t<std::string>> aaaaRecords;
   std::vector<unsorted_query_part_t<std::string>> ptrRecords;
+  size_t packet = 0;
 };
 
 using QueryResList = std::vector<Query_result>;
diff --git a/mdns_cpp/src/mdns.cpp b/mdns_cpp/src/mdns.cpp
index 2126d5f..4472b09 100644
--- a/mdns_cpp/src/mdns.cpp
+++ b/mdns_cpp/src/mdns.cpp
@@ -255,7 +255,7 @@ static int query_callback(int sock, const struct sockaddr *from, size_t addrlen,
   if (rtype == MDNS_RECORDTYPE_PTR) 
   {
     mdns_string_t namestr = mdns_record_parse_ptr(data, size, record_offset, record_length, namebuffer, sizeof(namebuffer));
-    queryRes.ptrRecords.emplace_back(fromaddrstr, canonicalName, MDNS_STRING_FORMAT_STD(namestr));
+    queryRes.ptrRecords.emplace_back(fromaddrstr, canonicalName, MDNS_STRING_FORMAT_STD(namestr), queryRes.packet);
   }
 
   if (rtype == MDNS_RECORDTYPE_SRV) 
@@ -265,26 +265,26 @@ static int query_callback(int sock, const struct sockaddr *from, size_t addrlen,
     queryRes.srvRecords.emplace_back(fromaddrstr, canonicalName, srv_record_t{
       srv.port,
       MDNS_STRING_FORMAT_STD(srv.name)
-    });
+    }, queryRes.packet);
   } 
   else if (rtype == MDNS_RECORDTYPE_A) 
   {
     struct sockaddr_in addr;
     mdns_record_parse_a(data, size, record_offset, record_length, &addr);
     std::string ip = ipv4AddressToString(namebuffer, sizeof(namebuffer), &addr, sizeof(addr));
-    queryRes.aRecords.emplace_back(fromaddrstr, canonicalName, std::move(ip));
+    queryRes.aRecords.emplace_back(fromaddrstr, canonicalName, std::move(ip), queryRes.packet);
   } 
   else if (rtype == MDNS_RECORDTYPE_AAAA) 
   {
     struct sockaddr_in6 addr;
     mdns_record_parse_aaaa(data, size, record_offset, record_length, &addr);
     std::string ip = ipv6AddressToString(namebuffer, sizeof(namebuffer), &addr, sizeof(addr));
-    queryRes.aaaaRecords.emplace_back(fromaddrstr, canonicalName, std::move(ip));
+    queryRes.aaaaRecords.emplace_back(fromaddrstr, canonicalName, std::move(ip), queryRes.packet);
   } 
   else if (rtype == MDNS_RECORDTYPE_TXT) 
   {
     std::string txtString((const char*)data + record_offset, record_length);
-    queryRes.txtRecords.emplace_back(fromaddrstr, canonicalName, std::move(txtString));
+    queryRes.txtRecords.emplace_back(fromaddrstr, canonicalName, std::move(txtString), queryRes.packet);
   }
 
 
@@ -526,6 +526,7 @@ QueryResList mDNS::executeQuery2(const std::string &service) {
       if (res > 0) {
         for (int isock = 0; isock < num_sockets; ++isock) {
           if (FD_ISSET(sockets[isock], &readfs)) {
+            ++queryRes.packet;
             mdns_query_recv(sockets[isock], buffer, capacity, query_callback, user_data, query_id[isock]);
           }
         }
@@ -584,8 +585,10 @@ QueryResList mDNS::executeQuery2(const std::string &service) {
     for(auto& t : queryRes.txtRecords)
     {
       if(testQueryPart(t, *it)){
-        outItem.txt = t.data;
-        break;
+        // several services of one host may have the same name, so the text of the same answer is preferred
+        const bool sameAnswer = t.packet == it->packet;
+        if(sameAnswer || outItem.txt.empty()) { outItem.txt = t.data; }
+        if(sameAnswer) { break; }
       }
     }
 
-- 
2.43.0


From a25b9c2b23674f53b2932607ed06d9b1a3be79c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:51 +0000
Subject: [PATCH 34/49] fix: a model hands out its 3DS and SVG buffers when it
 has them

---
 src/GDTFManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index b942830..70526c6 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -1989,7 +1989,7 @@ EGdtfModel_PrimitiveType GdtfModel::GetPrimitiveType() const
 
 void GdtfModel::GetBuffer3DS(void** bufferToCopy, size_t& length)
 {
-	if(fBuffer3DS)
+	if(!fBuffer3DS)
 	{
 		return;
 	}
@@ -2005,7 +2005,7 @@ void GdtfModel::GetBuffer3DS(void** bufferToCopy, size_t& length)
 
 void GdtfModel::GetBufferSVG(void** bufferToCopy, size_t& length)
 {
-	if(fBufferSVG)
+	if(!fBufferSVG)
 	{
 		return;
 	}
-- 
2.43.0


From 7949d10e2b6f4c936ff964906ad1f31d89b197a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:12 +0000
Subject: [PATCH 35/49] fix: a fixture keeps every file of its archive under
 its own name

---
 src/GDTFManager.cpp | 93 +++++++++++++--------------------------------
 1 file changed, 26 insertions(+), 67 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 70526c6..167d036 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -1631,50 +1631,27 @@ void GdtfModel::OnReadFromNode(const IXMLFileNodePtr& pNode)
 
 	if(!fGeometryFile.IsEmpty())
 	{
-		TXString filename3DS = fGeometryFile + ".3ds";
-		TXString filenameSVG = fGeometryFile + ".svg";
-		TXString filenameGLTF = fGeometryFile + ".glb";
+		const std::map<TXString, std::pair<char*, size_t> >& fileBuffers = fParentFixture->GetFileBuffers();
 
-		std::map<TXString, std::pair<char*, size_t> > fileBuffers = fParentFixture->GetFileBuffers();
-
-		auto buffer = fileBuffers.find(filename3DS);
-		if(buffer != fileBuffers.end())
-		{
-			fBufferSize3DS	= buffer->second.second;
-			fBuffer3DS		= new char[fBufferSize3DS];
-			memcpy(fBuffer3DS, buffer->second.first, fBufferSize3DS);
-		}
-		else if(fBufferSize3DS > 0)
+		// The files are stored with the name they have in the archive. Models next to the description are accepted too.
+		auto readBuffer = [&fileBuffers] (ERessourceType type, const TXString& fileName, char*& outBuffer, size_t& outSize) -> void
 		{
-			std::pair<char*, size_t> bufferPair = std::make_pair(fBuffer3DS, fBufferSize3DS);
-			fileBuffers[filename3DS] = bufferPair;
-		}
+			TXString subFolder = SceneDataZip::GetResourceSubFolder(type);
+			subFolder.Replace("\\", "/");
 
-		buffer = fileBuffers.find(filenameSVG);
-		if(buffer != fileBuffers.end())
-		{
-			fBufferSizeSVG	= buffer->second.second;
-			fBufferSVG		= new char[fBufferSizeSVG];
-			memcpy(fBufferSVG, buffer->second.first, fBufferSizeSVG);
-		}
-		else if(fBufferSizeSVG > 0)
-		{
-			std::pair<char*, size_t> bufferPair = std::make_pair(fBufferSVG, fBufferSizeSVG);
-			fileBuffers[filenameSVG] = bufferPair;
-		}
+			auto buffer = fileBuffers.find(subFolder + fileName);
+			if(buffer == fileBuffers.end())	{ buffer = fileBuffers.find(fileName); }
+			if(buffer == fileBuffers.end())	{ return; }
 
-		buffer = fileBuffers.find(filenameGLTF);
-		if(buffer != fileBuffers.end())
-		{
-			fBufferSizeGLTF	= buffer->second.second;
-			fBufferGLTF		= new char[fBufferSizeGLTF];
-			memcpy(fBufferGLTF, buffer->second.first, fBufferSizeGLTF);
-		}
-		else if(fBufferSizeGLTF > 0)
-		{
-			std::pair<char*, size_t> bufferPair = std::make_pair(fBufferGLTF, fBufferSizeGLTF);
-			fileBuffers[filenameGLTF] = bufferPair;
-		}	
+			if(outBuffer) { delete[] outBuffer; }
+			outSize		= buffer->second.second;
+			outBuffer	= new char[outSize];
+			memcpy(outBuffer, buffer->second.first, outSize);
+		};
+
+		readBuffer(ERessourceType::Model3DS,	fGeometryFile + ".3ds",	fBuffer3DS,		fBufferSize3DS);
+		readBuffer(ERessourceType::ModelSVG,	fGeometryFile + ".svg",	fBufferSVG,		fBufferSizeSVG);
+		readBuffer(ERessourceType::ModelGLTF,	fGeometryFile + ".glb",	fBufferGLTF,	fBufferSizeGLTF);
 	}
 }
 
@@ -7923,7 +7900,11 @@ bool GdtfFixture::ImportFromZip(IZIPFilePtr& zipfile)
 				size_t	size = 0;							buffer.GetDataSize(size);
 				void*	data = malloc(size * sizeof(char));	buffer.CopyDataInto(data, size); //data is deleted in the GdtfFixture destructor.
 				std::pair<char*, size_t> bufferPair = std::make_pair((char*)data, size);
-				fFileBuffers[fileNameWithoutFolder] = bufferPair;
+				TXString nameInArchive = TXString(fileName);
+				nameInArchive.Replace("\\", "/");
+				auto known = fFileBuffers.find(nameInArchive);
+				if (known != fFileBuffers.end()) { std::free(known->second.first); }
+				fFileBuffers[nameInArchive] = bufferPair;
 
 				//-----------------------------------------------------------------------------
 				IFolderIdentifierPtr targetFolder (IID_FolderIdentifier);
@@ -9921,35 +9902,13 @@ bool GdtfFixture::ExportToFile(IZIPFilePtr& zipfile)
 	SceneDataZip::AddFileToZip(zipfile, zipXmlBuffer, TXString(XML_GDTF_GDTFFILENAME) );
 
 	//------------------------------------------------------------------------------------
-	// Add meshes
+	// Add the files that came with the fixture
 
 	for (auto it = fFileBuffers.begin(); it != fFileBuffers.end(); it++)
 	{
-		TXString strFileName;
-
-		if(it->first.EndsWith("3ds"))
-		{
-			strFileName = SceneData::SceneDataZip::GetResourceSubFolder(ERessourceType::Model3DS) + it->first;
-		}
-
-		if(it->first.EndsWith("svg"))
-		{
-			strFileName = SceneData::SceneDataZip::GetResourceSubFolder(ERessourceType::ModelSVG) + it->first;
-		}
-
-		if(it->first.EndsWith("glb"))
-		{
-			strFileName = SceneData::SceneDataZip::GetResourceSubFolder(ERessourceType::ModelGLTF) + it->first;
-		}
-
-		if(!strFileName.IsEmpty())
-		{
-			CZIPFileIOBufferImpl* bufferzip = new CZIPFileIOBufferImpl();
-			bufferzip->SetData((void*)it->second.first, it->second.second);
-			zipfile->AddFile(strFileName, bufferzip);
-
-			delete bufferzip;
-		}
+		CZIPFileIOBufferImpl bufferzip;
+		bufferzip.SetData((void*)it->second.first, it->second.second);
+		zipfile->AddFile(it->first, &bufferzip);
 	}
 	
 	return true;
-- 
2.43.0


From b86bec9a1276841a854547ca03ebd2e227ceb46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:03 +0000
Subject: [PATCH 36/49] fix: files added to a fixture are kept when its buffer
 is refreshed

---
 src/Implementation/CGdtfFixture.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/Implementation/CGdtfFixture.cpp b/src/Implementation/CGdtfFixture.cpp
index 30bb1cb..5eada7c 100755
--- a/src/Implementation/CGdtfFixture.cpp
+++ b/src/Implementation/CGdtfFixture.cpp
@@ -155,6 +155,22 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::AddFileToGdtfFile(Mv
     // Append the SubFoldername for resources.
     strFileName = SceneData::SceneDataZip::GetResourceSubFolder(resType) + strFileName;
 
+	// Keep the content, as RefreshBuffer writes the archive again
+	IRawOSFilePtr rawFile (IID_RawOSFile);
+	if (VCOM_SUCCEEDED(rawFile->Open(file, true, false, false, false)))
+	{
+		Uint64 size = 0;
+		rawFile->GetFileSize(size);
+
+		std::vector<char> content((size_t)size + 1);
+		rawFile->Read(0, size, content.data());
+		rawFile->Close();
+
+		CZIPFileIOBufferImpl* buffer = new CZIPFileIOBufferImpl();
+		buffer->SetData(content.data(), (size_t)size);
+		fBuffersAdded.push_back({strFileName, buffer});
+	}
+
 	fZipFile->AddFile(strFileName, file);	
 	
 	// Read From File
-- 
2.43.0


From a3c43918a3e4d49a8ca24365fc2422cc92b3fdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 37/49] fix: members of an archive in sub folders reach the
 disk and none leaves the working folder

---
 src/GDTFManager.cpp       |  4 ++--
 src/SceneDataExchange.cpp | 17 ++++++++++++++++-
 src/XmlFileHelper.cpp     | 17 +++++++++++++++++
 src/XmlFileHelper.h       |  3 +++
 4 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 167d036..abcd92a 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -7825,7 +7825,7 @@ void GdtfFixture::PrepareWorkingFolder(TXString folderName)
 {
 	//-------------------------------------------------------------------------------------------------
 	// Working Directory
-	if(folderName.IsEmpty()){ folderName = "GdtfGroup"; }
+	if(folderName.IsEmpty() || !SceneDataZip::IsFileInsideArchiveFolder(folderName.GetStdString())){ folderName = "GdtfGroup"; }
 
 	fWorkingFolder = (IID_FolderIdentifier);
 
@@ -7866,7 +7866,7 @@ bool GdtfFixture::ImportFromZip(IZIPFilePtr& zipfile)
 	{
 		// This is the current file that we are reading
 		ISceneDataZipBuffer buffer;
-		if(VCOM_SUCCEEDED(zipfile->GetFile(fileName, &buffer)))
+		if(SceneDataZip::IsFileInsideArchiveFolder(fileName) && VCOM_SUCCEEDED(zipfile->GetFile(fileName, &buffer)))
 		{
 			if (fileName == "description.xml")
 			{
diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 98e2a96..9a198a4 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3758,6 +3758,11 @@ bool SceneDataExchange::ReadFromFile(const IFileIdentifierPtr& file)
 	std::string inPath	= "";
 	while (VCOM_SUCCEEDED( zipfile->GetNextFile(inPath, outPath)))
 	{
+		inPath = outPath;
+
+		// Folders and names that lead out of the working folder are nothing to unpack
+		if (!SceneDataZip::IsFileInsideArchiveFolder(outPath)) { continue; }
+
 		// This is the current file that we are reading
         ISceneDataZipBuffer buffer;
 		
@@ -3777,6 +3782,17 @@ bool SceneDataExchange::ReadFromFile(const IFileIdentifierPtr& file)
         }
         else
         {
+			// Create the folders that the file is stored in
+			for (size_t pos = outPath.find('/', 1); pos != std::string::npos; pos = outPath.find('/', pos + 1))
+			{
+				IFolderIdentifierPtr folder (IID_FolderIdentifier);
+				folder->Set(fWorkingFolder, TXString(outPath.substr(0, pos)));
+
+				bool folderExists = false;
+				folder->ExistsOnDisk(folderExists);
+				if (!folderExists) { folder->CreateOnDisk(); }
+			}
+
 			// Prepare pointer to the new files
 			IFileIdentifierPtr file (IID_FileIdentifier);
 			file->Set(fWorkingFolder, outPath);
@@ -3788,7 +3804,6 @@ bool SceneDataExchange::ReadFromFile(const IFileIdentifierPtr& file)
             fFilesInZip.push_back(file);
 		
         }
-        inPath = outPath;
 	}
 	
 	//-------------------------------------------------------------------------------------------------
diff --git a/src/XmlFileHelper.cpp b/src/XmlFileHelper.cpp
index 8faca3a..e2f1d23 100644
--- a/src/XmlFileHelper.cpp
+++ b/src/XmlFileHelper.cpp
@@ -2270,6 +2270,23 @@ void SceneDataZip::AddFileToZip(IZIPFilePtr& zipFile, ISceneDataZipBuffer& buffe
     zipFile->AddFile(name, &buffer);
 }
 
+bool SceneData::SceneDataZip::IsFileInsideArchiveFolder(const std::string& memberName)
+{
+	std::string part;
+	for (char c : memberName)
+	{
+		if (c == '/' || c == '\\')
+		{
+			if (part == "..") { return false; }
+			part.clear();
+		}
+		else { part += c; }
+	}
+
+	// The last part is the name of the file, folders have none
+	return !part.empty() && part != "." && part != "..";
+}
+
 TXString SceneData::SceneDataZip::GetResourceSubFolder(ERessourceType resType)
 {    
     switch (resType) 
diff --git a/src/XmlFileHelper.h b/src/XmlFileHelper.h
index 578300c..7327423 100644
--- a/src/XmlFileHelper.h
+++ b/src/XmlFileHelper.h
@@ -193,5 +193,8 @@ namespace SceneData
         static void AddFileToZip(IZIPFilePtr& zipFile, ISceneDataZipBuffer& buffer,const TXString &name);		
 
         static TXString GetResourceSubFolder(ERessourceType resType);
+
+		// A member can only be unpacked when it names a file inside of the folder that the archive is unpacked into
+		static bool IsFileInsideArchiveFolder(const std::string& memberName);
 	};
 }
-- 
2.43.0


From ca1f3682cebb0ac1e4a9da7a8c5256e6d99d87d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:09 +0000
Subject: [PATCH 38/49] fix: reading a damaged archive stays inside of it and
 members that can't be unpacked are reported

---
 src/Wrapper/ZIPFileBuffer.cpp |  9 +++++---
 src/Wrapper/ZIPFileImpl.cpp   | 39 ++++++++++++++++++++++++++---------
 src/Wrapper/ZIPFileImpl.h     |  2 +-
 3 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/Wrapper/ZIPFileBuffer.cpp b/src/Wrapper/ZIPFileBuffer.cpp
index baaa00f..9c8da8e 100644
--- a/src/Wrapper/ZIPFileBuffer.cpp
+++ b/src/Wrapper/ZIPFileBuffer.cpp
@@ -36,10 +36,10 @@ VCOMError ZIPFileBuffer::Open(VectorworksMVR::Filing::IFileIdentifier* pFileID,
 		IRawOSFilePtr file(IID_RawOSFile);
 
 		// open file
-		file->Open(pFileID, true, false, false, false);
+		if (VCOM_FAILED(file->Open(pFileID, true, false, false, false)))	{ return kVCOMError_FileNotFound; }
 
 		// get filesize
-		file->GetFileSize(fZIPFileBufferSize);
+		if (VCOM_FAILED(file->GetFileSize(fZIPFileBufferSize)))				{ fZIPFileBufferSize = 0; }
 		// load in buffer
 		fpZIPFileBuffer      = new Uint8[fZIPFileBufferSize];
 		fAllocatedMemorySize = fZIPFileBufferSize;
@@ -94,7 +94,10 @@ VCOMError ZIPFileBuffer::GetFileSize(Uint64& outValue)
 
 VCOMError ZIPFileBuffer::Read(Uint64 position, Uint64& inoutSize, void* pOutBuffer)
 {
-	memcpy(pOutBuffer, fpZIPFileBuffer + position, (size_t)inoutSize);
+	// There is nothing to read behind the end of the file
+	Uint64 available = (position < fZIPFileBufferSize) ? fZIPFileBufferSize - position : 0;
+	if (inoutSize > available)	{ inoutSize = available; }
+	if (inoutSize > 0)			{ memcpy(pOutBuffer, fpZIPFileBuffer + position, (size_t)inoutSize); }
 	return kVCOMError_NoError;
 }
 
diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index 3c3944e..1c39d88 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -262,6 +262,8 @@ VCOMError CZIPFileImpl::GetNextFile(const std::string& path, std::string& outPat
 	if ( path != "" )
 	{
 		this->GetFileCentralHeaderPosition( path, currentReadPosition );
+		if ( !currentReadPosition )
+			return kVCOMError_Failed;
 		currentReadPosition += ( 6 * kShortLength ) + ( 4 * kLongLength );
 
 		Uint16 fileNameLength = 0;
@@ -348,7 +350,10 @@ VCOMError CZIPFileImpl::GetFileInfo(const std::string& path, SZIPFileInfo& outIn
 	Uint16 extraFieldLength		= 0;
 	Uint16 fileCommentLength	= 0;
 	Uint16 dummy;
-	Uint32 signature;
+	Uint32 signature = 0;
+
+	if ( !currentReadPosition )
+		return kVCOMError_False;
 
 	this->ReadLong( signature, currentReadPosition );
 	if ( signature != kCentralDirSignature )
@@ -414,10 +419,17 @@ VCOMError CZIPFileImpl::GetFile(const std::string& path, IZIPFileIOBuffer* outpu
 		return kVCOMError_NotInitialized;
 	
 	SZIPFileInfo fileInfo;
-	this->GetFileInfo( path, fileInfo );
+	err = this->GetFileInfo( path, fileInfo );
+	if ( err != kVCOMError_NoError )
+		return err;
 	
 	Uint32 currentReadPosition = fileInfo.dwOffsetOfLocalHeader;
-	currentReadPosition += ( 5 * kShortLength ) + ( 4 * kLongLength ); // start of variable data
+	Uint32 signature = 0;
+	this->ReadLong( signature, currentReadPosition );
+	if ( signature != kLocalFileInfoSignature )
+		return kVCOMError_Failed;
+
+	currentReadPosition += ( 5 * kShortLength ) + ( 3 * kLongLength ); // start of variable data
 
 	Uint16 fileNameLength = 0;
 	Uint16 extraFieldLength = 0;
@@ -427,12 +439,19 @@ VCOMError CZIPFileImpl::GetFile(const std::string& path, IZIPFileIOBuffer* outpu
 
 	currentReadPosition += fileNameLength + extraFieldLength;
 
+	// the data has to be inside of the archive
+	Uint64 fileSize = 0;
+	this->GetSize( fileSize );
+	if ( (Uint64)currentReadPosition + fileInfo.dwCompressedSize > fileSize )
+		return kVCOMError_Failed;
+
 	// read the raw data
 	char* readData = new char[ fileInfo.dwCompressedSize ]; 
 	Uint64 inOutReadSize = (Uint64)fileInfo.dwCompressedSize;
 	this->ReadFromFile( currentReadPosition, inOutReadSize, (void*)readData ); 
 	
-	if ( fileInfo.dwCompressionMethod == 12  /* bzip2 */)
+	bool bEncrypted = (fileInfo.dwFlags & 1) != 0;
+	if ( bEncrypted || (fileInfo.dwCompressionMethod != 0 /* No compression */ && fileInfo.dwCompressionMethod != 8 /* Deflate */) )
 	{
 		SceneData::GdtfFixture::AddError(GdtfParsingError(GdtfDefines::EGdtfParsingError::eFileWithUnsupportedEncodingInZip)); 
 		err = kVCOMError_Failed;
@@ -826,7 +845,7 @@ bool CZIPFileImpl::Inflate( void* pData, size_t dataSize, IZIPFileIOBuffer* outB
 	bool bOk = false;
 	bool bFinished = false;
 
-	Uint8* inflateBuffer = new Uint8[ dataSize ];
+	Uint8* inflateBuffer = new Uint8[ dataSize + 1 ];
 	while ( !bFinished )
 	{
 		streamToInflate->next_out = inflateBuffer;
@@ -1008,7 +1027,7 @@ void CZIPFileImpl::ReadLong( Uint32& outRead, Uint32& currentReadPosition )
 		Uint64 length = 0;
 		this->fpOpenedFile->GetFileSize(length);
 
-		if(currentReadPosition >= length)
+		if(currentReadPosition >= length || length - currentReadPosition < sizeof(Uint32))
 		{
 			outRead = 0;
 		}
@@ -1028,7 +1047,7 @@ void CZIPFileImpl::ReadShort( Uint16& outRead, Uint32& currentReadPosition )
 		Uint64 length = 0;
 		this->fpOpenedFile->GetFileSize(length);
 
-		if(currentReadPosition >= length)
+		if(currentReadPosition >= length || length - currentReadPosition < sizeof(Uint16))
 		{
 			outRead = 0;
 		}
@@ -1253,10 +1272,10 @@ void CZIPFileImpl::GetFileCentralHeaderPosition( const std::string& path, Uint32
 	while ( !bFound && !bError )
 	{
 		Uint32 startOffset = (Uint32)currentReadPosition;
-		Uint32 signature;
+		Uint32 signature = 0;
 		this->ReadLong( signature, currentReadPosition );
 		if ( signature != kCentralDirSignature )
-			bError = true;
+			return;
 
 		currentReadPosition += ( 6 * kShortLength ) + ( 3 * kLongLength ); // start of variable length data ( file name, extra field and comment lengths )
 		Uint16 fileNameLength		= 0;
@@ -1277,7 +1296,7 @@ void CZIPFileImpl::GetFileCentralHeaderPosition( const std::string& path, Uint32
 		
 		if ( inOutReadSize != fileNameLength )
 		{
-			bError = true;
+			return;
 		}
 
 		if (((size_t)path.size() == fileNameLength ) &&  0 == memcmp(fReadFileName, path.c_str(), fileNameLength))
diff --git a/src/Wrapper/ZIPFileImpl.h b/src/Wrapper/ZIPFileImpl.h
index 2fbdadb..2fed2fd 100644
--- a/src/Wrapper/ZIPFileImpl.h
+++ b/src/Wrapper/ZIPFileImpl.h
@@ -131,7 +131,7 @@ namespace VectorworksMVR
 
 			TXString						fOpenedFileFullPath;
 			TXString						fFolderPath;
-			char							fReadFileName[1024];
+			char							fReadFileName[0x10000];
 		private:
 			static VCOMError				fLastError;
 
-- 
2.43.0


From b31d1937d82394a66150e24565c9d5b3b21e05df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:09 +0000
Subject: [PATCH 39/49] fix: archives with several members of one name or
 without name are read to their end

---
 src/Wrapper/ZIPFileImpl.cpp | 55 +++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index 1c39d88..029f0f0 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -276,27 +276,46 @@ VCOMError CZIPFileImpl::GetNextFile(const std::string& path, std::string& outPat
 		currentReadPosition += ( 2 * kShortLength ) + ( 2 * kLongLength ) + fileNameLength + extraFieldLength + fileCommentLength;
 	}
 
-	Uint32 signature;
-	this->ReadLong( signature, currentReadPosition );
-	if ( signature != kCentralDirSignature )
-		err =  kVCOMError_False;
-
-	if ( err == kVCOMError_NoError )
+	bool bFound = false;
+	while ( !bFound && err == kVCOMError_NoError )
 	{
-		Uint16 fileNameLength = 0;
-		currentReadPosition += ( 6 * kShortLength ) + ( 3 * kLongLength ); // the file name length will be found here
-		this->ReadShort( fileNameLength, currentReadPosition );
-		currentReadPosition += ( 4 * kShortLength ) + ( 2 * kLongLength ); // the file name will be found here
-		Uint64 inOutReadSize = (Uint64)fileNameLength;
-		this->ReadFromFile( currentReadPosition, inOutReadSize, (void*) fReadFileName );
+		Uint32 startPosition = currentReadPosition;
+		Uint32 signature = 0;
+		this->ReadLong( signature, currentReadPosition );
+		if ( signature != kCentralDirSignature )
+			err =  kVCOMError_False;
 
-		if ( ( (size_t)inOutReadSize == fileNameLength ) &&  0 != strcmp(fReadFileName, ""))
+		if ( err == kVCOMError_NoError )
 		{
-			outPath  = std::string( fReadFileName, fileNameLength );
-		}
-		else 
-		{
-			err = kVCOMError_Failed;
+			Uint16 fileNameLength = 0;
+			Uint16 extraFieldLength = 0;
+			Uint16 fileCommentLength = 0;
+			currentReadPosition += ( 6 * kShortLength ) + ( 3 * kLongLength ); // the file name length will be found here
+			this->ReadShort( fileNameLength, currentReadPosition );
+			this->ReadShort( extraFieldLength, currentReadPosition );
+			this->ReadShort( fileCommentLength, currentReadPosition );
+			currentReadPosition += ( 2 * kShortLength ) + ( 2 * kLongLength ); // the file name will be found here
+			Uint64 inOutReadSize = (Uint64)fileNameLength;
+			this->ReadFromFile( currentReadPosition, inOutReadSize, (void*) fReadFileName );
+
+			if ( (size_t)inOutReadSize == fileNameLength )
+			{
+				std::string name( fReadFileName, fileNameLength );
+				currentReadPosition += extraFieldLength + fileCommentLength;
+
+				// Files are found by name, so only the first one of a name can be read. One without name can't be read at all
+				Uint32 firstPosition = 0;
+				this->GetFileCentralHeaderPosition( name, firstPosition );
+				if ( firstPosition == startPosition )
+				{
+					outPath = name;
+					bFound = true;
+				}
+			}
+			else 
+			{
+				err = kVCOMError_Failed;
+			}
 		}
 	}
 
-- 
2.43.0


From ce4aada6b71f318128a0c63a4033fd622918f1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:09 +0000
Subject: [PATCH 40/49] fix: a scene skips members it can't unpack and an
 archive without scene description is refused

---
 src/Implementation/CMediaRessourceVectorImpl.cpp | 13 ++++++-------
 src/SceneDataExchange.cpp                        | 12 +++++-------
 2 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/Implementation/CMediaRessourceVectorImpl.cpp b/src/Implementation/CMediaRessourceVectorImpl.cpp
index 7fa782e..476df3c 100644
--- a/src/Implementation/CMediaRessourceVectorImpl.cpp
+++ b/src/Implementation/CMediaRessourceVectorImpl.cpp
@@ -1008,14 +1008,13 @@ VectorworksMVR::VCOMError VectorworksMVR::CMediaRessourceVectorImpl::OpenForRead
 	fExchangeObj.InitializeForImport();
 	fReadMode = true;
 	
-	if (fExchangeObj.ReadFromFile(fPath))	
-	{ 
-		// Prepare the Attached File Count
-		fullPathStorage.clear();
-		fullPathStorage.resize(fExchangeObj.GetAttachedFileCount(), TXString());
+	bool read = fExchangeObj.ReadFromFile(fPath);
 
-		return kVCOMError_NoError; 
-	}
+	// Prepare the Attached File Count
+	fullPathStorage.clear();
+	fullPathStorage.resize(fExchangeObj.GetAttachedFileCount(), TXString());
+
+	if (read)	{ return kVCOMError_NoError; }
 	
 	// If the file could not be read, we return a no file error
 	return kVCOMError_FileNotFound;
diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 9a198a4..a3a5cfb 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3766,7 +3766,7 @@ bool SceneDataExchange::ReadFromFile(const IFileIdentifierPtr& file)
 		// This is the current file that we are reading
         ISceneDataZipBuffer buffer;
 		
-		zipfile->GetFile(outPath, &buffer);
+		if (VCOM_FAILED(zipfile->GetFile(outPath, &buffer))) { continue; }
 		
         if (outPath == "GeneralSceneDescription.xml")
         {
@@ -3814,12 +3814,10 @@ bool SceneDataExchange::ReadFromFile(const IFileIdentifierPtr& file)
 	//-------------------------------------------------------------------------------------------------
 	// Prepare bools for checksum checks
 
-	ASSERTN(kEveryone, xmlFileBuffer.IsSet());
-    if (xmlFileBuffer.IsSet())
-    {
-		// Read from Scene Description
-		ReadFromGeneralSceneDescription(xmlFileBuffer);
-    }
+    if (!xmlFileBuffer.IsSet()) { return false; }
+
+	// Read from Scene Description
+	ReadFromGeneralSceneDescription(xmlFileBuffer);
 
 	return true;	
 }
-- 
2.43.0


From 80d86f3ae5edaf9153b16545f79fcc9473e49fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:09 +0000
Subject: [PATCH 41/49] fix: a folder name that leads up once its separators
 are gone stays inside of the working folder

---
 src/GDTFManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index abcd92a..636ae4c 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -7894,6 +7894,9 @@ bool GdtfFixture::ImportFromZip(IZIPFilePtr& zipfile)
 				
 				// flatten the folder structure
 				subFolder = subFolder.Replace(TXString(kSeperator), "");
+
+				// without the separators, the folder must not lead out of the working folder either
+				if (subFolder == "..") { inPath = fileName; continue; }
 				subFolder = TXString(kSeperator) + subFolder;
 
 				// write the data into the filebuffer map.
-- 
2.43.0


From 91a468cbe52d136338258a02c72cb885c0c4d002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:09 +0000
Subject: [PATCH 42/49] fix: text that is no UTF-8 is read with replacement
 characters instead of throwing

---
 src/GSString.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index 05cbb36..6da248c 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -2526,7 +2526,26 @@ void TXString::SetStdUStrFromCharBuffer(const char* src, size_t srcLenToUse, ETX
 	// LINUX_IMPLEMENTATION - done
 	std::wstring_convert<std::codecvt_utf8_utf16<char16_t>, char16_t> converter;
 	std::string strSrc = std::string(src, strLen);
-	stdUStr = converter.from_bytes(strSrc);
+	try
+	{
+		stdUStr = converter.from_bytes(strSrc);
+	}
+	catch (const std::range_error&)
+	{
+		// Invalid chars are replaced with replacement characters, as on Windows
+		stdUStr.clear();
+		for (size_t pos = 0; pos < strSrc.size(); )
+		{
+			size_t len = 1;
+			for (; len <= 4 && pos + len <= strSrc.size(); len++)
+			{
+				try						{ stdUStr += converter.from_bytes(strSrc.substr(pos, len)); break; }
+				catch (const std::range_error&)	{ }
+			}
+			if (len > 4 || pos + len > strSrc.size())	{ stdUStr += (char16_t)0xFFFD; len = 1; }
+			pos += len;
+		}
+	}
 #else	// Mac
 	if(encoding == ETXEncoding::eUTF8)
 	{
-- 
2.43.0


From 03d6e2c7511b6dcd03ac31d7b1f23761143d694f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:30 +0000
Subject: [PATCH 43/49] fix: an attribute that moves to another feature or
 activation group leaves the one it was in

---
 src/GDTFManager.cpp | 16 ++++++++++++++--
 src/GDTFManager.h   |  2 ++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 636ae4c..95f3836 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -202,6 +202,11 @@ void GdtfActivationGroup::AddLinkedAttribute(GdtfAttribute* attr)
 	fLinkedAttributes.push_back(attr);
 }
 
+void GdtfActivationGroup::RemoveLinkedAttribute(GdtfAttribute* attr)
+{
+	fLinkedAttributes.erase(std::remove(fLinkedAttributes.begin(), fLinkedAttributes.end(), attr), fLinkedAttributes.end());
+}
+
 TXString GdtfActivationGroup::GetNodeReference()
 {
 	return GetName();
@@ -293,6 +298,11 @@ void GdtfFeature::AddLinkedAttribute(GdtfAttribute* attr)
 	fLinkedAttributes.push_back(attr);
 }
 
+void GdtfFeature::RemoveLinkedAttribute(GdtfAttribute* attr)
+{
+	fLinkedAttributes.erase(std::remove(fLinkedAttributes.begin(), fLinkedAttributes.end(), attr), fLinkedAttributes.end());
+}
+
 
 void GdtfFeature::SetName(const TXString & name)
 {
@@ -594,7 +604,8 @@ void GdtfAttribute::SetPrettyName(const TXString &name)
 
 void GdtfAttribute::SetActivationGroup(GdtfActivationGroupPtr ptr)
 {
-	ASSERTN(kEveryone, fActivationGroup == nullptr);
+	// The attribute can move from one group to another
+	if (fActivationGroup) { fActivationGroup->RemoveLinkedAttribute(this); }
 	fActivationGroup = ptr;
 	
 	ASSERTN(kEveryone, ptr != nullptr);
@@ -753,7 +764,8 @@ const TGdtfSubPhysicalUnitArray& GdtfAttribute::GetSubPhysicalUnitArray() const
 
 void GdtfAttribute::SetFeature(GdtfFeaturePtr newFeat)
 {
-	ASSERTN(kEveryone, fFeature == nullptr);
+	// The attribute can move from one feature to another
+	if (fFeature) { fFeature->RemoveLinkedAttribute(this); }
 	fFeature = newFeat;
 	
 	ASSERTN(kEveryone, newFeat != nullptr);
diff --git a/src/GDTFManager.h b/src/GDTFManager.h
index 429356d..ad0a7d7 100644
--- a/src/GDTFManager.h
+++ b/src/GDTFManager.h
@@ -150,6 +150,7 @@ namespace SceneData
 	
 		const std::vector<GdtfAttribute*>&  GetLinkedAttributes() const;
 		void								AddLinkedAttribute(GdtfAttribute* attr);
+		void								RemoveLinkedAttribute(GdtfAttribute* attr);
 		
 	protected:
 		virtual	TXString				    GetNodeName();
@@ -182,6 +183,7 @@ namespace SceneData
 		
 		const std::vector<GdtfAttribute*>&		GetLinkedAttributes() const;
 		void									AddLinkedAttribute(GdtfAttribute* attr);
+		void									RemoveLinkedAttribute(GdtfAttribute* attr);
 		
 	public:
 		virtual EGdtfObjectType					GetObjectType();
-- 
2.43.0


From 0d0c93cabf80b5045b06025dfde6aad6fa0318ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:30 +0000
Subject: [PATCH 44/49] fix: overwritten channels on children of a referenced
 geometry give their mode the break of the reference

---
 src/GDTFManager.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 95f3836..ceac9ed 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -5172,6 +5172,18 @@ const TGdtfDmxRelationArray& GdtfDmxMode::GetDmxRelations()
 	return fRelations;
 }
 
+static bool IsInGeometryTree(GdtfGeometryPtr root, GdtfGeometryPtr geometry)
+{
+	if(root == geometry) { return true; }
+	if(root == nullptr)  { return false; }
+
+	for(GdtfGeometryPtr child : root->GetInternalGeometries())
+	{
+		if(IsInGeometryTree(child, geometry)) { return true; }
+	}
+	return false;
+}
+
 TSint32Array GdtfDmxMode::GetBreakArray() const
 {
 	//------------------------------------------------------------------------------------------------------------
@@ -5229,7 +5241,7 @@ TSint32Array GdtfDmxMode::GetBreakArray() const
 		{
 			for(GdtfGeometryReferencePtr geoRef : geometryRefs)
 			{
-				if(geoRef->GetLinkedGeometry() == channel->GetGeomRef())
+				if(channel->GetGeomRef() && IsInGeometryTree(geoRef->GetLinkedGeometry(), channel->GetGeomRef()))
 				{
 					TGdtfBreakArray refBreaks = geoRef->GetBreakArray();
 					if(refBreaks.empty()) { continue; }
-- 
2.43.0


From 03ad26b09c9f30aa76031576dd0b7f4a5662902e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:23 +0000
Subject: [PATCH 45/49] fix: an unknown attribute is reported also when the
 fixture uses NoFeature

---
 src/GDTFManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index ceac9ed..9d944cd 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -8170,7 +8170,7 @@ GdtfAttributePtr GdtfFixture::getAttributeByRef(const TXString& ref)
 
 	// When this line is reached nothing was found.
 	DSTOP ((kEveryone, "Failed to resolve GdtfAttributePtr."));
-	return fNoFeature;
+	return nullptr;
 }
 
 void GdtfFixture::CreateNoFeatureAttribute()
-- 
2.43.0


From e03be5e8da055216d71760606a50001945a3f815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:23 +0000
Subject: [PATCH 46/49] fix: a function is checked against every function its
 DMX range overlaps, not only the first

---
 src/GDTFManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 9d944cd..d7bce4b 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -9366,6 +9366,7 @@ void GdtfFixture::CheckForMissingModeMasters()
                                     //If not, we throw an error.
                                     GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureChannelFunctionMissingModeMaster);
                                     SceneData::GdtfFixture::AddError(error);
+                                    break;
                                 }
                                 else
                                 {
@@ -9386,10 +9387,10 @@ void GdtfFixture::CheckForMissingModeMasters()
                                             //If they do, we throw an error.
                                             GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureChannelFunctionModeMasterOverlap);
                                             SceneData::GdtfFixture::AddError(error);
+                                            break;
                                         }
                                     }
                                 }
-                                break;
                             }
                         }
                     }
-- 
2.43.0


From 66cd14616c0706f4b9a43dad264531058a58ee53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:23 +0000
Subject: [PATCH 47/49] fix: a channel without geometry takes no part in the
 search for repeated geometry and attribute pairs

---
 src/GDTFManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index d7bce4b..d79e14f 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -9140,7 +9140,7 @@ void GdtfFixture::ResolveDmxLogicalChanRefs(GdtfDmxChannelPtr dmxChnl, std::unor
 			bool isDummyAttribute = attributeName.EqualNoCase("Dummy");
 			
 			bool alreadyExists = false;
-			if (!isNoFeatureAttribute && !isDummyAttribute)
+			if (geoRef && !isNoFeatureAttribute && !isDummyAttribute)
 			{
 				if (seenGeoAttrPairs)
 				{
@@ -9156,7 +9156,7 @@ void GdtfFixture::ResolveDmxLogicalChanRefs(GdtfDmxChannelPtr dmxChnl, std::unor
 					for(GdtfDmxChannelPtr channel : mode->GetChannelArray())
 					{
 						GdtfGeometryPtr currentGeometry = channel->GetGeomRef();
-						if(currentGeometry == nullptr) { break; }
+						if(currentGeometry == nullptr) { continue; }
 						TXString currentGeometryName = currentGeometry->GetName();
 						for(GdtfDmxLogicalChannelPtr logicalChannel : channel->GetLogicalChannelArray())
 						{
-- 
2.43.0


From dd8b3ffd0f8f9f5b091f2ed26e33e7f5c1de904d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:23 +0000
Subject: [PATCH 48/49] fix: width, height and curvature of a display are known
 attributes

---
 src/GDTFManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index d79e14f..0018da1 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -3026,6 +3026,9 @@ void GdtfGeometryDisplay::OnErrorCheck(const IXMLFileNodePtr& pNode)
 	optional.push_back(XML_GDTF_GeometryModelRef);
 	needed.push_back(XML_GDTF_GeometryMatrix);
 	needed.push_back(XML_GDTF_DisplayTexture);
+	optional.push_back(XML_GDTF_DisplayWidth);
+	optional.push_back(XML_GDTF_DisplayHeight);
+	optional.push_back(XML_GDTF_DisplayIsCurved);
 
 	//------------------------------------------------------------------------------------
 	// Check Attributes for node
-- 
2.43.0


From 66434c1df20ec4b749a1acb03052e9fde454d21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:37 +0000
Subject: [PATCH 49/49] fix: a colour space without mode and a colour rendering
 index without sample have their default and are no error

---
 src/XmlFileHelper.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/XmlFileHelper.cpp b/src/XmlFileHelper.cpp
index e2f1d23..3952e9a 100644
--- a/src/XmlFileHelper.cpp
+++ b/src/XmlFileHelper.cpp
@@ -1598,7 +1598,8 @@ CieColor SceneData::GdtfConverter::ConvertCColor(const CCieColor & color)
 
 /*static*/ bool GdtfConverter::ConvertEGdtfColorSampleEnum(const TXString& inVal, const IXMLFileNodePtr& node, EGdtfColorSample& outVal)
 {    
-    if      (inVal == XML_GDTF_ColorSample_1)  { outVal = EGdtfColorSample::CES_01; }
+    if      (inVal.IsEmpty())                  { outVal = EGdtfColorSample::CES_01; }
+    else if (inVal == XML_GDTF_ColorSample_1)  { outVal = EGdtfColorSample::CES_01; }
     else if (inVal == XML_GDTF_ColorSample_2)  { outVal = EGdtfColorSample::CES_02; }
     else if (inVal == XML_GDTF_ColorSample_3)  { outVal = EGdtfColorSample::CES_03; }
     else if (inVal == XML_GDTF_ColorSample_4)  { outVal = EGdtfColorSample::CES_04; }
@@ -1724,7 +1725,8 @@ CieColor SceneData::GdtfConverter::ConvertCColor(const CCieColor & color)
 
 /*static*/ bool GdtfConverter::ConvertEGdtfColorSpace(const TXString& inVal, const IXMLFileNodePtr& node, EGdtfColorSpace& outVal)
 {
-     if        (inVal == XML_GDTF_ColorSpaceEnum_sRGB)      { outVal = EGdtfColorSpace::sRGB; }     
+     if        (inVal.IsEmpty())                            { outVal = EGdtfColorSpace::sRGB; }
+     else if   (inVal == XML_GDTF_ColorSpaceEnum_sRGB)      { outVal = EGdtfColorSpace::sRGB; }     
      else if   (inVal == XML_GDTF_ColorSpaceEnum_Custom)    { outVal = EGdtfColorSpace::Custom; }
      else if   (inVal == XML_GDTF_ColorSpaceEnum_ProPhoto)  { outVal = EGdtfColorSpace::ProPhoto; }
      else if   (inVal == XML_GDTF_ColorSpaceEnumr_ANSI)     { outVal = EGdtfColorSpace::ANSI;  }
-- 
2.43.0

