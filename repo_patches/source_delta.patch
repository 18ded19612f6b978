From cf2c848032984b1bd27d51ed2f853c6efb0e6495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 01/29] fix: decode Raw analog events in panel ASCII lines

The event regex did not list the Raw kind, so HWC#<id>=Raw:<value> lines, which
the encoder produces, were decoded to empty messages.
---
 converterFunctions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index 3c4d2d6..6b3999a 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -964,7 +964,7 @@ func InboundMessagesToRawPanelASCIIstrings(inboundMsgs []*rwp.InboundMessage) []
 
 var regex_map = regexp.MustCompile("^map=([0-9]+):([0-9]+)$")
 var regex_genericSingle_inbound = regexp.MustCompile("^(_model|_serial|_version|_platform|_bluePillReady|_name|_panelType|_support|_isSleeping|_sleepTimer|_panelTopology_svgbase|_panelTopology_HWC|_burninProfile|_networkConfig|_calibrationProfile|_defaultCalibrationProfile|_serverModeLockToIP|_serverModeMaxClients|_heartBeatTimer|DimmedGain|_connections|_bootsCount|_totalUptimeMin|_sessionUptimeMin|_screenSaverOnMin|ErrorMsg|Msg|EnvironmentalHealth|SysStat)=(.+)$")
-var regex_cmd_inbound = regexp.MustCompile("^HWC#([0-9]+)(|.([0-9]+))=(Down|Up|Press|Abs|Speed|Enc)(|:([-0-9]+))$")
+var regex_cmd_inbound = regexp.MustCompile("^HWC#([0-9]+)(|.([0-9]+))=(Down|Up|Press|Abs|Speed|Enc|Raw)(|:([-0-9]+))$")
 var regex_registersOut = regexp.MustCompile("^(Flag#|Mem|Shift|State)([A-Z0-9]*)=([0-9]+)$")
 
 // Converts Raw Panel 1.0 ASCII Strings into proto OutboundMessage structs
@@ -1087,7 +1087,7 @@ func RawPanelASCIIstringsToOutboundMessages(rp20_ascii []string) []*rwp.Outbound
 						},
 					}
 				case "Raw":
-					value := su.Intval(regex_cmd.FindStringSubmatch(inputString)[6])
+					value := su.Intval(regex_cmd_inbound.FindStringSubmatch(inputString)[6])
 					msg = &rwp.OutboundMessage{
 						Events: []*rwp.HWCEvent{
 							&rwp.HWCEvent{
-- 
2.43.0


From cc78626fb11bb203bbb2fe941c0526a624b9c775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 02/29] fix: keep SVG lines that do not end in a tag when
 flattening

Lines not ending in '>' were replaced by a single space instead of getting one
appended, which dropped multi-line path data and attributes.
---
 converterFunctions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index 6b3999a..d629ac5 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -1826,8 +1826,8 @@ func stripLineBreaksSvg(svg string) string {
 	parts := strings.Split(svg, "\n")
 	for i := range parts {
 		parts[i] = strings.TrimSpace(parts[i])
-		if !strings.HasSuffix(parts[i], ">") {
-			parts[i] = " " // Add a single space at the end if it's not tags. This is to secure integrity of such as a SVG path defined over multiple lines which is sometimes the case....
+		if parts[i] != "" && !strings.HasSuffix(parts[i], ">") {
+			parts[i] += " " // Add a single space at the end if it's not tags. This is to secure integrity of such as a SVG path defined over multiple lines which is sometimes the case....
 		}
 	}
 	return strings.Join(parts, "")
-- 
2.43.0


From 9c134449fb625f329dbf1d3f05426266cf91e03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 03/29] fix: never put a line feed inside a produced ASCII line

Titles, text lines, register ids, identity strings and lists could carry line
feeds into the line stream and split one line into several.
---
 converterFunctions.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/converterFunctions.go b/converterFunctions.go
index d629ac5..28df9a7 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -932,6 +932,8 @@ func InboundMessagesToRawPanelASCIIstrings(inboundMsgs []*rwp.InboundMessage) []
 		}
 	}
 
+	ensureSingleLines(returnStrings)
+
 	if DebugRWPhelpers {
 		DebugRWPhelpersMU.Lock()
 		fmt.Println("\n-------------------------------------------------------------------------------")
@@ -1749,6 +1751,8 @@ func OutboundMessagesToRawPanelASCIIstrings(outboundMsgs []*rwp.OutboundMessage)
 		}
 	}
 
+	ensureSingleLines(returnStrings)
+
 	if DebugRWPhelpers {
 		DebugRWPhelpersMU.Lock()
 		fmt.Println("\n-------------------------------------------------------------------------------")
@@ -1841,6 +1845,13 @@ func stripLineBreaks(in string) string {
 	return strings.Join(parts, "")
 }
 
+// ensureSingleLines replaces line feeds inside the strings with a space, because each string is sent as one line.
+func ensureSingleLines(lines []string) {
+	for i := range lines {
+		lines[i] = strings.ReplaceAll(lines[i], "\n", " ")
+	}
+}
+
 func networkConfigFromString(str string) *rwp.NetworkConfig {
 
 	networkConfig := &rwp.NetworkConfig{}
-- 
2.43.0


From 101d47ef0cb37a7ccd16f36cbcf3b47498bc152d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 04/29] fix: encode unformatted text without text styling

Formats 10 and 11 dereferenced the optional TextStyling and panicked when it was
absent.
---
 converterFunctions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index 28df9a7..9c38971 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -870,7 +870,7 @@ func InboundMessagesToRawPanelASCIIstrings(inboundMsgs []*rwp.InboundMessage) []
 							if !su.IsIntIn(int(stateRec.HWCText.Formatting), []int{7, 10, 11}) {
 								stringSlice[0] = strconv.Itoa(int(stateRec.HWCText.IntegerValue))
 							} else if su.IsIntIn(int(stateRec.HWCText.Formatting), []int{10, 11}) {
-								stringSlice[0] = strconv.Itoa(int(stateRec.HWCText.TextStyling.UnformattedFontSize))
+								stringSlice[0] = strconv.Itoa(int(stateRec.HWCText.TextStyling.GetUnformattedFontSize()))
 							} else { // Formatting == 7
 								stringSlice[1] = ""
 								stringSlice[0] = ""
-- 
2.43.0


From 44218da9a5cb50748a65200cac68dc0444c6c932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 05/29] fix: skip null elements of a JSON message array

They were returned as nil messages.
---
 converterFunctions.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index 9c38971..4168afd 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -173,7 +173,11 @@ func RawPanelASCIIstringsToInboundMessages(rp20_ascii []string) []*rwp.InboundMe
 				myStateMsgs := []*rwp.InboundMessage{}
 				json.Unmarshal([]byte(inputString), &myStateMsgs)
 				msg = nil
-				returnMsgs = append(returnMsgs, myStateMsgs...)
+				for _, myStateMsg := range myStateMsgs {
+					if myStateMsg != nil { // "null" elements carry no message
+						returnMsgs = append(returnMsgs, myStateMsg)
+					}
+				}
 			} else if regex_cmd.MatchString(inputString) {
 				HWCidArray := su.IntExplode(regex_cmd.FindStringSubmatch(inputString)[2], ",")
 				switch regex_cmd.FindStringSubmatch(inputString)[1] {
-- 
2.43.0


From 6baa8cf2c3d7acd4980b2975f20fdfd6a9a1b9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:50 +0000
Subject: [PATCH 06/29] fix: deliver only images whose chunks arrived in one
 unbroken sequence

---
 converterFunctions.go |  6 ++++--
 rawpanelhelpers.go    | 23 +++++++++++++++++------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/converterFunctions.go b/converterFunctions.go
index 4168afd..0299df2 100644
--- a/converterFunctions.go
+++ b/converterFunctions.go
@@ -381,8 +381,8 @@ func RawPanelASCIIstringsToInboundMessages(rp20_ascii []string) []*rwp.InboundMe
 				}
 				if temp_HWCGfx_ImageType == imageType {
 					if submatches[2] == temp_HWCGfx_HWClist { // Check that HWC list is the same as last one
-						temp_HWCGfx_count++
-						if gPartIndex == temp_HWCGfx_count { // Make sure index is the next in line
+						if gPartIndex == temp_HWCGfx_count+1 { // Make sure index is the next in line
+							temp_HWCGfx_count++
 							temp_HWCGfx.ImageData = append(temp_HWCGfx.ImageData, decodedSlice...)
 							if gPartIndex == temp_HWCGfx_max { // If we have reached the final one, wrap it up:
 								msg = &rwp.InboundMessage{
@@ -394,9 +394,11 @@ func RawPanelASCIIstringsToInboundMessages(rp20_ascii []string) []*rwp.InboundMe
 									},
 								}
 								//fmt.Println("DID IT! ", submatches)
+								temp_HWCGfx_HWClist = "" // Transfer done
 							}
 						} else {
 							//fmt.Println("gPartIndex didn't match expected")
+							temp_HWCGfx_HWClist = "" // Lines were lost or repeated, what follows may belong to another image: give up on this one
 						}
 					} else {
 						//fmt.Println("Wrong HWC addressed!")
diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 6f7f0c6..73de001 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -617,6 +617,15 @@ type ASCIIreader struct {
 
 var ASCIIreader_gfx = regexp.MustCompile("^(HWCgRGB#|HWCgGray#|HWCg#)([0-9,]+)=([0-9]+)(/([0-9]+),([0-9]+)x([0-9]+)(,([0-9]+),([0-9]+)|)|):(.*)$")
 
+// resetGfx forgets the image transfer in progress
+func (ar *ASCIIreader) resetGfx() {
+	ar.HWCGfx_count = -1
+	ar.HWCGfx_max = 0
+	ar.HWCGfx_HWClist = ""
+	ar.HWCGfx_ImageType = ""
+	ar.HWCGfx = []string{}
+}
+
 func (ar *ASCIIreader) Parse(inputString string) []*rwp.InboundMessage {
 
 	// Init, if it's clear that there was no image ever loaded into the struct:
@@ -653,15 +662,17 @@ func (ar *ASCIIreader) Parse(inputString string) []*rwp.InboundMessage {
 
 		if ar.HWCGfx_ImageType == submatches[1] {
 			if ar.HWCGfx_HWClist == submatches[2] { // Check that HWC list is the same as last one
-				ar.HWCGfx_count++
-				if gPartIndex == ar.HWCGfx_count { // Make sure index is the next in line
+				if gPartIndex == ar.HWCGfx_count+1 { // Make sure index is the next in line
+					ar.HWCGfx_count++
 					ar.HWCGfx = append(ar.HWCGfx, inputString)
 					if gPartIndex == ar.HWCGfx_max { // If we have reached the final one, wrap it up:
-						ar.HWCGfx_count = -1 // Reset
-						return RawPanelASCIIstringsToInboundMessages(ar.HWCGfx)
+						imageLines := ar.HWCGfx
+						ar.resetGfx()
+						return RawPanelASCIIstringsToInboundMessages(imageLines)
 					}
-				} else {
-					log.Warnf("gPartIndex %d didn't match expected %d\n", gPartIndex, ar.HWCGfx_count)
+				} else { // Lines were lost or repeated, what follows may belong to another image: give up on this one
+					log.Warnf("gPartIndex %d didn't match expected %d\n", gPartIndex, ar.HWCGfx_count+1)
+					ar.resetGfx()
 				}
 			} else {
 				log.Warnf("Wrong HWC %s addressed! Should be %s\n", submatches[2], ar.HWCGfx_HWClist)
-- 
2.43.0


From f9fae3e2c33e1836bce3bc72f25109d5530fdf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 07/29] fix: convert mono images with short data to PNG instead
 of dropping them (C17)

---
 rawpanelhelpers.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 73de001..6f863b5 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -798,10 +798,14 @@ func ConvertGfxStateToPngBytes(hwcState *rwp.HWCState) ([]byte, error) {
 		switch hwcState.HWCGfx.ImageType { // Copied from Reactor code base.... (KS)
 		case rwp.HWCGfx_MONO:
 			monoImg := monogfx.MonoImg{}
+			imageData := hwcState.HWCGfx.ImageData
+			if missing := (int(hwcState.HWCGfx.W)+7)/8*int(hwcState.HWCGfx.H) - len(imageData); missing > 0 {
+				imageData = append(append([]byte{}, imageData...), make([]byte, missing)...) // Pixels beyond the data are off
+			}
 			err := monoImg.CreateFromBytes(
 				int(hwcState.HWCGfx.W),
 				int(hwcState.HWCGfx.H),
-				hwcState.HWCGfx.ImageData)
+				imageData)
 			log.Should(err)
 			// TODO: Images with offsets!!
 
-- 
2.43.0


From a6b86d16c5bbf6968ed65137c96178e452384922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 08/29] fix: clip pixels at the left and top of the bounding
 box (C16)

---
 ibeam_lib_monogfx/monogfx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ibeam_lib_monogfx/monogfx.go b/ibeam_lib_monogfx/monogfx.go
index d734fdd..e6278a6 100644
--- a/ibeam_lib_monogfx/monogfx.go
+++ b/ibeam_lib_monogfx/monogfx.go
@@ -238,7 +238,8 @@ func (img *MonoImg) DrawPixel(x int, y int, color bool) {
 	y += img.bbox_y
 	widthMax := su.Qint(img.bbox_width+img.bbox_x > img.Width, img.Width, img.bbox_width+img.bbox_x)
 	heightMax := su.Qint(img.bbox_height+img.bbox_y > img.Height, img.Height, img.bbox_height+img.bbox_y)
-	if x < widthMax && y < heightMax {
+	if x >= su.Qint(img.bbox_x < 0, 0, img.bbox_x) && x < widthMax &&
+		y >= su.Qint(img.bbox_y < 0, 0, img.bbox_y) && y < heightMax {
 		index := y*img.widthInBytes + x/8
 		if index >= 0 && index < len(img.imgBytes) { // Check we are not writing out of bounds
 			if color != img.invertPixels { // XOR of the two...
-- 
2.43.0


From ac13c560858e2cce43820fe839dc9b45c12562ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 09/29] fix: scale character spacing with the text size (C20)

---
 ibeam_lib_monogfx/monogfx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ibeam_lib_monogfx/monogfx.go b/ibeam_lib_monogfx/monogfx.go
index e6278a6..bda6a2d 100644
--- a/ibeam_lib_monogfx/monogfx.go
+++ b/ibeam_lib_monogfx/monogfx.go
@@ -526,7 +526,7 @@ func (img *MonoImg) writeChar(c byte) {
 		img.DrawChar(img.cursor_x, img.cursor_y, c, img.textcolor, img.textbgcolor, img.textsizeH, img.textsizeV)
 		//fmt.Println("img.DrawChar ", c, img.cursor_x, img.cursor_y)
 		cWidth := int(img.GetCharWidth(c))
-		img.cursor_x += img.textsizeH*cWidth + int(img.charSpacingCompensation)
+		img.cursor_x += img.textsizeH * (cWidth + int(img.charSpacingCompensation))
 		if img.wrap && (img.cursor_x > img.GetBWidth()-img.textsizeH*(cWidth-1)) { // (cWidth - 1) is because we assume the last pixel column is probably blank and we prefer to write text all the way to the edge
 			img.cursor_y += img.textsizeV*int(img.fontBBHeight) + int(img.lineSpacingCompensation)
 			img.cursor_x = 0
@@ -569,7 +569,7 @@ func (img *MonoImg) SetCharSpacingCompensation(c byte) {
 func (img *MonoImg) StrWidth(str string) int {
 	width := 0
 	for _, char := range str {
-		width += int(img.GetCharWidth(byte(char)))*img.textsizeH + int(img.charSpacingCompensation)
+		width += (int(img.GetCharWidth(byte(char))) + int(img.charSpacingCompensation)) * img.textsizeH
 	}
 
 	return width - img.textsizeH // " - textsizeH" is because we assume the last pixel column is probably blank and we prefer to write text all the way to the edge
-- 
2.43.0


From 93dfaf3ed6f96de10284828fbd8d1c7e5ea9510d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 10/29] fix: keep rounded rectangles inside their rectangle
 (C16)

---
 ibeam_lib_monogfx/monogfx.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/ibeam_lib_monogfx/monogfx.go b/ibeam_lib_monogfx/monogfx.go
index bda6a2d..0a19a96 100644
--- a/ibeam_lib_monogfx/monogfx.go
+++ b/ibeam_lib_monogfx/monogfx.go
@@ -258,8 +258,27 @@ func (img *MonoImg) FillRect(x int, y int, w int, h int, color bool) {
 	}
 }
 
+// Limits a corner radius to what fits a rectangle of the given size
+func cornerRadius(w int, h int, r int) int {
+	if r > w/2 {
+		r = w / 2
+	}
+	if r > h/2 {
+		r = h / 2
+	}
+	if r < 0 {
+		r = 0
+	}
+	return r
+}
+
 // Draws a filled rectangle with rounded corners
 func (img *MonoImg) DrawRoundRect(x int, y int, w int, h int, r int, color bool) {
+	if w <= 0 || h <= 0 {
+		return
+	}
+	r = cornerRadius(w, h, r)
+
 	// smarter version
 	img.DrawFastHLine(x+r, y, w-2*r, color)     // Top
 	img.DrawFastHLine(x+r, y+h-1, w-2*r, color) // Bottom
@@ -275,6 +294,8 @@ func (img *MonoImg) DrawRoundRect(x int, y int, w int, h int, r int, color bool)
 
 // Draws a filled rectangle with rounded corners
 func (img *MonoImg) FillRoundRect(x int, y int, w int, h int, r int, color bool) {
+	r = cornerRadius(w, h, r)
+
 	// smarter version
 	img.FillRect(x+r, y, w-2*r, h, color) // Top
 
-- 
2.43.0


From be8d469c30619652ab91437a3dfc946002094dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 11/29] fix: exclude the spacing after the last character from
 text widths (C18)

---
 ibeam_lib_monogfx/monogfx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ibeam_lib_monogfx/monogfx.go b/ibeam_lib_monogfx/monogfx.go
index 0a19a96..2404e68 100644
--- a/ibeam_lib_monogfx/monogfx.go
+++ b/ibeam_lib_monogfx/monogfx.go
@@ -592,6 +592,9 @@ func (img *MonoImg) StrWidth(str string) int {
 	for _, char := range str {
 		width += (int(img.GetCharWidth(byte(char))) + int(img.charSpacingCompensation)) * img.textsizeH
 	}
+	if len(str) > 0 { // No spacing after the last character
+		width -= int(img.charSpacingCompensation) * img.textsizeH
+	}
 
 	return width - img.textsizeH // " - textsizeH" is because we assume the last pixel column is probably blank and we prefer to write text all the way to the edge
 }
-- 
2.43.0


From ba14c92c5cc2f5baec78298223d757c6615609b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 12/29] fix: do not index beyond the display colour table (C18)

---
 rawpanelhelpers.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 6f863b5..8f0ce77 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -218,7 +218,11 @@ func convertToColorRGB16bit(colorObj rwp.Color) int {
 			uint32((su.MapAndConstrainValue(int(colorObj.ColorRGB.Blue), 0, 0xFF, 0, 0x3)&0x3)<<0))
 	} else if colorObj.ColorIndex != nil {
 		outputInteger := uint32(colorObj.ColorIndex.Index & 0x1F)
-		output = su.Qint(len(buttonColors) > int(outputInteger), int(buttonColors[outputInteger]), int(buttonColors[0]))
+		if int(outputInteger) < len(buttonColors) {
+			output = int(buttonColors[outputInteger])
+		} else {
+			output = int(buttonColors[0])
+		}
 	}
 	return output
 }
-- 
2.43.0


From b66e124a8240a16f56271819ef766a47af393ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 13/29] fix: compute scale ranges without overflow (C18)

---
 rawpanelhelpers.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 8f0ce77..8052ad5 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -561,7 +561,7 @@ func WriteDisplayTileNew(textStruct *rwp.HWCText, width int, height int, shrink
 
 				// Render scale line in bottom of tile
 				if a == 0 {
-					rangeDiff := int(textStruct.Scale.RangeHigh - textStruct.Scale.RangeLow)
+					rangeDiff := int(textStruct.Scale.RangeHigh) - int(textStruct.Scale.RangeLow)
 					if textStruct.Scale != nil && textStruct.Scale.ScaleType > 0 && rangeDiff != 0 {
 						disp.DrawRoundRect(0, activeHeight-1, int(width), 1, 0, WHITE) // Base rectangle
 
@@ -581,11 +581,11 @@ func WriteDisplayTileNew(textStruct *rwp.HWCText, width int, height int, shrink
 						}
 
 						if textStruct.Scale.RangeHigh > textStruct.Scale.LimitHigh {
-							wBar = su.ConstrainValue(int(float64(textStruct.Scale.LimitHigh-textStruct.Scale.RangeLow)/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
+							wBar = su.ConstrainValue(int(float64(int(textStruct.Scale.LimitHigh)-int(textStruct.Scale.RangeLow))/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
 							disp.FillRoundRect(su.ConstrainValue(wBar, 0, activeWidth-1), activeHeight-4, 1, 3, 0, WHITE) // In-fill
 						}
 						if textStruct.Scale.RangeLow < textStruct.Scale.LimitLow {
-							wBar = su.ConstrainValue(int(float64(textStruct.Scale.LimitLow-textStruct.Scale.RangeLow)/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
+							wBar = su.ConstrainValue(int(float64(int(textStruct.Scale.LimitLow)-int(textStruct.Scale.RangeLow))/float64(rangeDiff)*float64(activeWidth)), 0, activeWidth)
 							disp.FillRoundRect(su.ConstrainValue(wBar, 0, activeWidth-1), activeHeight-4, 1, 3, 0, WHITE) // In-fill
 						}
 					}
-- 
2.43.0


From b5fbc73c66e6cddcd8e5b8f8711eb56fdddf95c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 14/29] fix: leave the caller's text state untouched when
 rendering a tile (C18)

---
 rawpanelhelpers.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 8052ad5..6cdafa8 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -309,6 +309,7 @@ func TrimExplode(str string, token string) []string {
 // Port of similar function in UniSketch:
 func WriteDisplayTileNew(textStruct *rwp.HWCText, width int, height int, shrink int, border int) monogfx.MonoImg { // Border and shrink shall come from info about the tile we render onto...
 
+	textStruct = proto.Clone(textStruct).(*rwp.HWCText) // The caller's state is not touched
 	if textStruct.TextStyling == nil {
 		textStruct.TextStyling = &rwp.HWCText_TextStyle{}
 	}
-- 
2.43.0


From 9f7b1feec20d2839723f6128db78dff3ed10fe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 15/29] fix: topology look-ups by out of range ids or positions
 find nothing (C13)

---
 topology/topology.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/topology/topology.go b/topology/topology.go
index 6d7ce7e..6af9628 100644
--- a/topology/topology.go
+++ b/topology/topology.go
@@ -367,7 +367,7 @@ func (topology *Topology) GetTypeDefWithOverride(HWcDef *TopologyHWcomponent) To
 
 func (top *Topology) GetHWCTypeDefinitionFromHWCid(HWCid int) *TopologyHWcTypeDef {
 	for k, r := range top.HWc {
-		if r.Id == uint32(HWCid) {
+		if int64(r.Id) == int64(HWCid) {
 			return top.GetHWCTypeDefinition(k)
 		}
 	}
@@ -376,7 +376,7 @@ func (top *Topology) GetHWCTypeDefinitionFromHWCid(HWCid int) *TopologyHWcTypeDe
 }
 func (top *Topology) GetHWCDefinitionFromHWCid(HWCid int) *TopologyHWcomponent {
 	for _, r := range top.HWc {
-		if r.Id == uint32(HWCid) {
+		if int64(r.Id) == int64(HWCid) {
 			return &r
 		}
 	}
@@ -385,7 +385,7 @@ func (top *Topology) GetHWCDefinitionFromHWCid(HWCid int) *TopologyHWcomponent {
 }
 
 func (top *Topology) GetHWCTypeDefinition(HWCMapKey int) *TopologyHWcTypeDef {
-	if HWCMapKey >= len(top.HWc) {
+	if HWCMapKey < 0 || HWCMapKey >= len(top.HWc) {
 		return &TopologyHWcTypeDef{}
 	}
 
-- 
2.43.0


From 1b964aa51ad16d6826f6a5532828c5d3557e296e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 16/29] fix: never renumber a topology type to 0, which means
 disabled (C14)

---
 topology/topology.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/topology/topology.go b/topology/topology.go
index 6af9628..286d912 100644
--- a/topology/topology.go
+++ b/topology/topology.go
@@ -269,7 +269,7 @@ func (topology *Topology) Verify() {
 
 func (topology *Topology) RandomizeTypes(sequence bool) {
 
-	// Remap:
+	// Remap (0 is not a type number, it marks a component as disabled):
 	newTypeStruct := make(map[uint32]TopologyHWcTypeDef)
 	typeMapping := make(map[uint32]uint32)
 	s1 := rand.NewSource(time.Now().UnixNano())
@@ -277,7 +277,7 @@ func (topology *Topology) RandomizeTypes(sequence bool) {
 	seq := uint32(1)
 	for typeNum, typeStruct := range topology.TypeIndex {
 		// Find new random index not used:
-		typeMapping[typeNum] = uint32(r1.Intn(1000000))
+		typeMapping[typeNum] = uint32(1 + r1.Intn(999999))
 		if sequence {
 			typeMapping[typeNum] = seq
 		}
@@ -289,7 +289,7 @@ func (topology *Topology) RandomizeTypes(sequence bool) {
 					//fmt.Println("Had to find new type instead of ", typeMapping[typeNum])
 				} else {
 					fmt.Println("Had to find new type instead of ", typeMapping[typeNum])
-					typeMapping[typeNum] = uint32(r1.Intn(1000000))
+					typeMapping[typeNum] = uint32(1 + r1.Intn(999999))
 				}
 			} else {
 				break
-- 
2.43.0


From 7d77d19b8a7c1d104c05c5bdcd296bfe277a0abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 17/29] fix: keep namespace prefixes and all text of the base
 SVG (C15)

---
 topology/svgicon.go | 49 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/topology/svgicon.go b/topology/svgicon.go
index 2bf9df2..006fc31 100644
--- a/topology/svgicon.go
+++ b/topology/svgicon.go
@@ -6,6 +6,7 @@ package topology
 
 import (
 	"encoding/json"
+	encxml "encoding/xml"
 	"fmt"
 	"strconv"
 	"strings"
@@ -45,6 +46,7 @@ func GenerateCompositeSVGdoc(topologyJSON string, topologySVG string, theMap map
 		log.Error("svgDoc.Root was nil")
 		return nil
 	}
+	restoreNamesAndText(svgDoc, topologySVG)
 
 	// Reading JSON topology:
 	var topology Topology
@@ -216,6 +218,53 @@ func GenerateCompositeSVGdoc(topologyJSON string, topologySVG string, theMap map
 	return svgDoc
 }
 
+// xmldom drops the namespace prefixes of elements and attributes and keeps only the last piece of an element's text (texts are split by comments, CDATA sections and child elements).
+// This brings both back from the source the document was parsed from.
+func restoreNamesAndText(svgDoc *xml.Document, source string) {
+	decoder := encxml.NewDecoder(strings.NewReader(source))
+	node := svgDoc.Root              // The element being read
+	depth := 0                       // Its depth, zero before the root element
+	nextChild := map[*xml.Node]int{} // Number of children already read
+	texts := map[*xml.Node]string{}
+	for {
+		token, err := decoder.RawToken()
+		if err != nil {
+			return
+		}
+		switch token := token.(type) {
+		case encxml.StartElement:
+			if depth > 0 {
+				parent := node
+				node = parent.Children[nextChild[parent]]
+				nextChild[parent]++
+			}
+			depth++
+			node.Name = qualifiedName(token.Name)
+			for i, attr := range token.Attr {
+				node.Attributes[i].Name = qualifiedName(attr.Name)
+			}
+		case encxml.CharData:
+			if depth > 0 {
+				texts[node] += string(token)
+			}
+		case encxml.EndElement:
+			node.Text = strings.TrimSpace(texts[node])
+			depth--
+			if depth == 0 {
+				return
+			}
+			node = node.Parent
+		}
+	}
+}
+
+func qualifiedName(name encxml.Name) string {
+	if name.Space == "" {
+		return name.Local
+	}
+	return name.Space + ":" + name.Local
+}
+
 func addFormatting(newHWc *xml.Node, id int) {
 	// There is some common conventional formatting regardless of rectangle / circle: Like fill and stroke color and stroke width.
 	newHWc.SetAttributeValue("fill", "#dddddd")
-- 
2.43.0


From 118fa0454666953053938e6c3f75232c7aac89bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:31 +0000
Subject: [PATCH 18/29] fix: classify the reply to the binary ping independent
 of TCP segmentation (C12)

---
 connecttopanel.go  | 16 ++++++++--------
 rawpanelhelpers.go | 42 ++++++++++++++++++++++++++++++++++--------
 2 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/connecttopanel.go b/connecttopanel.go
index e471b34..214b630 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -84,20 +84,20 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 			log.Should(err)
 
 			// Prepare reception of the response (times out after two seconds)
-			byteArray := make([]byte, 1000)
 			err = conn.SetReadDeadline(time.Now().Add(2000 * time.Millisecond))
 			log.Should(err)
-			byteCount, err := conn.Read(byteArray) // Should timeout after 2 seconds if ascii panel, otherwise respond promptly with an ACK message
+			byteArray, err := readProbeReply(conn) // Should timeout after 2 seconds if ascii panel, otherwise respond promptly with an ACK message
+			byteCount := len(byteArray)
 			assumeASCII := false
 			binaryPanel := true
-			if err == nil {
+			if byteCount > 0 {
 				if byteCount > 4 {
 					responsePayloadLength := binary.LittleEndian.Uint32(byteArray[0:4])
 					if responsePayloadLength+4 == uint32(byteCount) {
 						reply := &rwp.OutboundMessage{}
-						proto.Unmarshal(byteArray[4:byteCount], reply)
+						proto.Unmarshal(byteArray[4:], reply)
 						if reply.FlowMessage == rwp.OutboundMessage_ACK {
-							log.Debugln("Received ACK successfully: ", byteArray[0:byteCount])
+							log.Debugln("Received ACK successfully: ", byteArray)
 							log.Debugln("Using Binary Protocol Mode for panel ", panelIPAndPort)
 						} else {
 							log.Debugln("Received something else than an ack response, staying with Binary Protocol Mode for panel ", panelIPAndPort)
@@ -118,12 +118,12 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 
 			errorMsg := ""
 			if assumeASCII {
-				parts := strings.Split(string(byteArray[:byteCount]), "\n")
+				parts := strings.Split(string(byteArray), "\n")
 				if strings.HasPrefix(parts[0], "ErrorMsg=") {
-					errorMsg = parts[0][9:]
+					errorMsg = strings.TrimSuffix(parts[0][9:], "\r")
 				}
 
-				log.Debugf("Reply from panel was: %s\n", strings.ReplaceAll(string(byteArray[:byteCount]), "\n", "\\n"))
+				log.Debugf("Reply from panel was: %s\n", strings.ReplaceAll(string(byteArray), "\n", "\\n"))
 				log.Debugln("Using ASCII Protocol Mode for panel", panelIPAndPort)
 				_, err = conn.Write([]byte("\n")) // Clearing an ASCII panels buffer with a newline since we sent it binary stuff
 				binaryPanel = false
diff --git a/rawpanelhelpers.go b/rawpanelhelpers.go
index 6cdafa8..1a80048 100644
--- a/rawpanelhelpers.go
+++ b/rawpanelhelpers.go
@@ -7,6 +7,7 @@ import (
 	"encoding/binary"
 	"encoding/json"
 	"fmt"
+	"io"
 	"math"
 	"net"
 	"regexp"
@@ -710,12 +711,12 @@ func AutoDetectIfPanelEncodingIsBinary(c net.Conn, panelIPAndPort string) bool {
 
 	_, err = c.Write(pbdata) // Send "ping" and wait one second for a reply:
 	log.Should(err)
-	byteArray := make([]byte, 1000)
 	err = c.SetReadDeadline(time.Now().Add(2000 * time.Millisecond))
 	log.Should(err)
 
-	byteCount, err := c.Read(byteArray) // Should timeout after 2 seconds if ascii panel, otherwise respond promptly with an ACK message
-	if err != nil {
+	byteArray, err := readProbeReply(c) // Should timeout after 2 seconds if ascii panel, otherwise respond promptly with an ACK message
+	byteCount := len(byteArray)
+	if byteCount == 0 {
 		log.WithError(err).Debug("tried to connected in binarymode failed, trying asciimode...")
 		log.Infoln("Using ASCII Protocol Mode for panel", panelIPAndPort)
 		_, err = c.Write([]byte("\n")) // Clearing an ASCII panels buffer with a newline since we sent it binary stuff
@@ -723,7 +724,7 @@ func AutoDetectIfPanelEncodingIsBinary(c net.Conn, panelIPAndPort string) bool {
 		return false
 	}
 
-	if byteCount >= 4 && (string(byteArray[0:4]) == "RDY\n" || string(byteArray[0:4]) == "map=") {
+	if strings.TrimSpace(string(byteArray)) == "RDY" || strings.HasPrefix(string(byteArray), "map=") {
 		log.Debugln("Detected map or RDY message issued by UniSketch ASCII panels - we conclude ASCII")
 		_, err = c.Write([]byte("\n")) // Clearing an ASCII panels buffer with a newline since we sent it binary stuff
 		log.Should(err)
@@ -731,21 +732,21 @@ func AutoDetectIfPanelEncodingIsBinary(c net.Conn, panelIPAndPort string) bool {
 	}
 
 	if byteCount <= 4 {
-		log.Debugln("Unexpected reply length, staying with Binary Protocol Mode for panel ", panelIPAndPort, ". Reply was", byteArray[0:byteCount], string(byteArray[0:byteCount]))
+		log.Debugln("Unexpected reply length, staying with Binary Protocol Mode for panel ", panelIPAndPort, ". Reply was", byteArray, string(byteArray))
 		return true
 	}
 
 	responsePayloadLength := binary.LittleEndian.Uint32(byteArray[0:4])
 	if responsePayloadLength+4 != uint32(byteCount) {
-		log.Debugln("Bytecount didn't match header, staying with Binary Protocol Mode for panel ", panelIPAndPort, ". Reply was", byteArray[0:byteCount], string(byteArray[0:byteCount]))
+		log.Debugln("Bytecount didn't match header, staying with Binary Protocol Mode for panel ", panelIPAndPort, ". Reply was", byteArray, string(byteArray))
 		return true
 	}
 
 	reply := &rwp.OutboundMessage{}
-	log.Should(proto.Unmarshal(byteArray[4:byteCount], reply))
+	log.Should(proto.Unmarshal(byteArray[4:], reply))
 
 	if reply.FlowMessage == rwp.OutboundMessage_ACK {
-		log.Debugln("Received ACK successfully: ", byteArray[0:byteCount])
+		log.Debugln("Received ACK successfully: ", byteArray)
 		log.Debugln("Using Binary Protocol Mode for panel ", panelIPAndPort)
 	} else {
 		log.Debugln("Received something else than an ack response, staying with Binary Protocol Mode for panel ", panelIPAndPort)
@@ -754,6 +755,31 @@ func AutoDetectIfPanelEncodingIsBinary(c net.Conn, panelIPAndPort string) bool {
 	return true // Default is binary
 }
 
+// Reads a panels reply to a binary ping and nothing beyond it: One complete binary frame or - if the first bytes are not a plausible frame header - one line of text.
+// Returns what arrived of it along with the error, if there was one.
+func readProbeReply(c net.Conn) ([]byte, error) {
+	reply := make([]byte, 4)
+	n, err := io.ReadFull(c, reply)
+	if err != nil {
+		return reply[:n], err
+	}
+
+	if payloadLength := binary.LittleEndian.Uint32(reply); payloadLength < 500000 {
+		reply = append(reply, make([]byte, payloadLength)...)
+		n, err = io.ReadFull(c, reply[4:])
+		return reply[:4+n], err
+	}
+
+	nextByte := make([]byte, 1)
+	for len(reply) < 1000 && reply[len(reply)-1] != '\n' {
+		if _, err = io.ReadFull(c, nextByte); err != nil {
+			break
+		}
+		reply = append(reply, nextByte[0])
+	}
+	return reply, err
+}
+
 // Converts a monochrome byte slice back to image object
 func CreateImgObjectFromRGBBytes(w int, h int, data []byte) image.Image {
 	dest := image.NewRGBA(image.Rectangle{image.Point{0, 0}, image.Point{w, h}})
-- 
2.43.0


From 322dd77f53418a07207d13a8892f4dd7c58168ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:45 +0000
Subject: [PATCH 19/29] fix: time out binary frames that stall in the header,
 not those that arrive slowly (C08, C10)

---
 connecttopanel.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/connecttopanel.go b/connecttopanel.go
index 214b630..68bd08b 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -23,6 +23,16 @@ type ConnectToPanelConfig struct {
 	ReConnectionRetryPeriod int // Period in seconds between retries in case of disconnect
 }
 
+// Reads the bytes of a binary frame that has begun: More data must arrive within at most 2 seconds. This helps a run-away scenario where not all data arrives or we read the wrong (and too big) header
+type frameReader struct {
+	conn net.Conn
+}
+
+func (fr frameReader) Read(p []byte) (int, error) {
+	fr.conn.SetReadDeadline(time.Now().Add(2 * time.Second))
+	return fr.conn.Read(p)
+}
+
 // Connects to a raw panel compliant device on IP:port
 // Start it as a goroutine (go ConnnectToPanel)
 // Supply channels for messages to and from the panel. You must make sure something is reading from the msgsFromPanel channel, while you send stuff into msgsToPanel
@@ -179,7 +189,10 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 				for {
 					conn.SetReadDeadline(time.Time{}) // Reset deadline, waiting for header
 					headerArray := make([]byte, 4)
-					_, err := io.ReadFull(conn, headerArray) // Read 4 header bytes
+					_, err := io.ReadFull(conn, headerArray[:1]) // Wait for the first header byte
+					if err == nil {
+						_, err = io.ReadFull(frameReader{conn}, headerArray[1:]) // Read the other 3 header bytes
+					}
 					if err != nil {
 						log.Debugln("Binary: ", err)
 						break
@@ -187,8 +200,7 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 						currentPayloadLength := binary.LittleEndian.Uint32(headerArray[0:4])
 						if currentPayloadLength < 500000 {
 							payload := make([]byte, currentPayloadLength)
-							conn.SetReadDeadline(time.Now().Add(2 * time.Second)) // Set a deadline that we want all data within at most 2 seconds. This helps a run-away scenario where not all data arrives or we read the wront (and too big) header
-							_, err := io.ReadFull(conn, payload)
+							_, err := io.ReadFull(frameReader{conn}, payload)
 							if err != nil {
 								log.Debugln(err)
 								break
-- 
2.43.0


From fd1816cb87c00980fc1f4492d4447007ad2efeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:28 +0000
Subject: [PATCH 20/29] fix: wait for the full retry period although messages
 are submitted (C11)

---
 connecttopanel.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/connecttopanel.go b/connecttopanel.go
index 68bd08b..5868c80 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -68,13 +68,16 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 		if err != nil {
 			//fmt.Println(err)
 			timer1 := time.NewTimer(time.Duration(noConnectionRetryPeriod) * time.Second)
-			select {
-			case <-ctx.Done():
-				log.Debugln("Stop trying to connect to " + panelIPAndPort)
-				return
-			case <-msgsToPanel:
-				// Ignore incoming if we are unconnected. But it's important to read the channel to not pile up stuff there.
-			case <-timer1.C:
+			for waiting := true; waiting; {
+				select {
+				case <-ctx.Done():
+					log.Debugln("Stop trying to connect to " + panelIPAndPort)
+					return
+				case <-msgsToPanel:
+					// Ignore incoming if we are unconnected. But it's important to read the channel to not pile up stuff there.
+				case <-timer1.C:
+					waiting = false
+				}
 			}
 		} else {
 			log.Debugln("TCP Connection established...")
-- 
2.43.0


From 715089146dc79c764f0cb5136f8a48bc4c927728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 21/29] fix: reconnect to ASCII panels after the configured
 retry period, not a second later (C11)

---
 connecttopanel.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/connecttopanel.go b/connecttopanel.go
index 5868c80..53668f0 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -226,7 +226,6 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 					if err != nil {
 						if err == io.EOF {
 							log.Debugln("Panel: " + conn.RemoteAddr().String() + " disconnected")
-							time.Sleep(time.Second)
 						} else {
 							log.Debugln(err)
 						}
-- 
2.43.0


From d2979ea29f774edf589f77bbb920bac9838aa8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:31 +0000
Subject: [PATCH 22/29] fix: cancellation ends every phase of the panel client
 and all its goroutines (C11)

---
 connecttopanel.go | 44 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/connecttopanel.go b/connecttopanel.go
index 53668f0..f408533 100644
--- a/connecttopanel.go
+++ b/connecttopanel.go
@@ -63,7 +63,8 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 	// Main loop for continuous connection attempts:
 	for {
 		log.Debugln("Trying to connect to panel on " + panelIPAndPort)
-		conn, err := net.Dial("tcp", panelIPAndPort)
+		dialer := net.Dialer{}
+		conn, err := dialer.DialContext(ctx, "tcp", panelIPAndPort)
 
 		if err != nil {
 			//fmt.Println(err)
@@ -82,6 +83,22 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 		} else {
 			log.Debugln("TCP Connection established...")
 
+			// This goroutine is closing the connection if the context is done, whatever the connection is used for at that time:
+			var exit atomic.Bool
+			quit := make(chan bool)
+			routines := sync.WaitGroup{} // The goroutines of this connection
+			routines.Add(1)
+			go func() {
+				defer routines.Done()
+				select {
+				case <-ctx.Done(): // Context shutdown.
+					log.Debugln("Closing network connection because context was done, ", panelIPAndPort)
+					exit.Store(true)
+					conn.Close() // The implications of closing the connection should be that the listening code below will also fail and exit - but it might not happen if the msgsFromPanel channel reader outside this function has been stopped prematurely, so watch out for that.
+				case <-quit:
+				}
+			}()
+
 			// Is panel ASCII or Binary? Try by sending a binary ping to the panel.
 			// Background: Since it's possible that a panel auto detects binary or ascii protocol mode itself, it's better to probe with a Binary package since otherwise a binary capable panel/system pair in auto mode would negotiate to use ASCII which is not efficient.
 			pingMessage := &rwp.InboundMessage{
@@ -142,20 +159,20 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 				binaryPanel = false
 			}
 
+			if ctx.Err() != nil { // Cancelled before we knew what kind of panel it is
+				close(quit)
+				conn.Close()
+				routines.Wait()
+				return
+			}
+
 			// This goroutine is reading the msgsToPanel channel and sending over the panel in the proper encoding (binary or ASCII)
-			var exit atomic.Bool
-			quit := make(chan bool)
+			routines.Add(1)
 			go func() {
-				if wg != nil {
-					wg.Add(1)
-					defer wg.Done()
-				}
+				defer routines.Done()
 				for {
 					select {
 					case <-ctx.Done(): // Context shutdown.
-						log.Debugln("Closing network connection because context was done, ", panelIPAndPort)
-						exit.Store(true)
-						conn.Close() // The implications of closing the connection should be that the listening code below will also fail and exit - but it might not happen if the msgsFromPanel channel reader outside this function has been stopped prematurely, so watch out for that.
 						return
 					case <-quit:
 						return
@@ -240,6 +257,7 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 			log.Debugln("Network connection closed or failed for ", panelIPAndPort)
 			close(quit)
 			conn.Close()
+			routines.Wait()
 			doExit := exit.Load()
 			if ondisconnect != nil {
 				ondisconnect(doExit)
@@ -249,7 +267,11 @@ func ConnectToPanel(panelIPAndPort string, msgsToPanel <-chan []*rwp.InboundMess
 			}
 
 			log.Debugf("Retrying in %d seconds for %s\n", reConnectionRetryPeriod, panelIPAndPort)
-			time.Sleep(time.Duration(reConnectionRetryPeriod) * time.Second)
+			select {
+			case <-ctx.Done():
+				return
+			case <-time.After(time.Duration(reConnectionRetryPeriod) * time.Second):
+			}
 		}
 	}
 }
-- 
2.43.0


From a37bdf10902bcf14c61f2a20ad085cd76e834dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:48 +0000
Subject: [PATCH 23/29] fix: stop reading from a panel after a frame over the
 limit (C19)

---
 gorwp/rawpanel.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index 079674a..edea166 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -225,6 +225,7 @@ func (rp *RawPanel) readFromPanel() error {
 					}
 				} else {
 					log.Println("Error: Payload", currentPayloadLength, "exceed limit")
+					return fmt.Errorf("payload of %d bytes exceeds limit", currentPayloadLength) // What follows is not a frame
 				}
 			}
 		}
-- 
2.43.0


From ea451e9990ed050b7aa4efd185047da16527c220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:48 +0000
Subject: [PATCH 24/29] fix: time out frames that stall anywhere, not those
 arriving slowly (C19)

---
 gorwp/rawpanel.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index edea166..78ad906 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -193,13 +193,26 @@ func (rp *RawPanel) listen(ctx context.Context) {
 	(*rp.cancel)()
 }
 
+// Reads the bytes of a binary frame that has begun: More data must arrive within at most 2 seconds. This helps a run-away scenario where not all data arrives or we read the wrong (and too big) header
+type frameReader struct {
+	conn net.Conn
+}
+
+func (fr frameReader) Read(p []byte) (int, error) {
+	fr.conn.SetReadDeadline(time.Now().Add(2 * time.Second))
+	return fr.conn.Read(p)
+}
+
 func (rp *RawPanel) readFromPanel() error {
 	// Reading from panel:
 	if rp.binaryPanel {
 		for {
 			rp.connection.SetReadDeadline(time.Time{}) // Reset deadline, waiting for header
 			headerArray := make([]byte, 4)
-			_, err := io.ReadFull(rp.connection, headerArray) // Read 4 header bytes
+			_, err := io.ReadFull(rp.connection, headerArray[:1]) // Wait for the first header byte
+			if err == nil {
+				_, err = io.ReadFull(frameReader{rp.connection}, headerArray[1:]) // Read the other 3 header bytes
+			}
 			if err != nil {
 				if err == io.EOF {
 					log.Errorln("Panel: " + rp.connection.RemoteAddr().String() + " disconnected")
@@ -211,8 +224,7 @@ func (rp *RawPanel) readFromPanel() error {
 				currentPayloadLength := binary.LittleEndian.Uint32(headerArray[0:4])
 				if currentPayloadLength < 500000 {
 					payload := make([]byte, currentPayloadLength)
-					rp.connection.SetReadDeadline(time.Now().Add(2 * time.Second)) // Set a deadline that we want all data within at most 2 seconds. This helps a run-away scenario where not all data arrives or we read the wront (and too big) header
-					_, err := io.ReadFull(rp.connection, payload)
+					_, err := io.ReadFull(frameReader{rp.connection}, payload)
 					if err != nil {
 						log.Errorln(err)
 						break
-- 
2.43.0


From 96a36069c0fa1989ef127d42f39bab4d6db25bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:48 +0000
Subject: [PATCH 25/29] fix: dispatch events that come along with an
 acknowledge (C19)

---
 gorwp/rawpanel.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index 78ad906..6fbcbb0 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -231,9 +231,7 @@ func (rp *RawPanel) readFromPanel() error {
 					} else {
 						outgoingMessage := &rwp.OutboundMessage{}
 						proto.Unmarshal(payload, outgoingMessage)
-						if outgoingMessage.FlowMessage != 2 { // ack
-							rp.fromPanel <- []*rwp.OutboundMessage{outgoingMessage}
-						}
+						rp.fromPanel <- []*rwp.OutboundMessage{outgoingMessage}
 					}
 				} else {
 					log.Println("Error: Payload", currentPayloadLength, "exceed limit")
-- 
2.43.0


From 67cff566c692e8db30ac1dc1d8f1ad7c98281611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:49 +0000
Subject: [PATCH 26/29] fix: allow binding handlers while events are dispatched
 (C19)

---
 gorwp/inputs.go   | 10 ++++++++++
 gorwp/rawpanel.go | 31 +++++++++++++++++++++----------
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/gorwp/inputs.go b/gorwp/inputs.go
index 4de80cd..b79e42b 100644
--- a/gorwp/inputs.go
+++ b/gorwp/inputs.go
@@ -44,6 +44,8 @@ type BinaryFunc func(uint32, BinaryStatus, BinaryEdge)
 // binary trigger.  When the binary trigger is pushed down, then the provided
 // BinaryFunc is called.
 func (rp *RawPanel) BindBinary(hwc uint32, f BinaryFunc) {
+	rp.bindings.Lock()
+	defer rp.bindings.Unlock()
 	rp.binaryBindings[hwc] = f
 }
 
@@ -56,6 +58,8 @@ type PulsedFunc func(uint32, int)
 // encoder. When the encoder is turned then the provided
 // PulsedFunc is called.
 func (rp *RawPanel) BindPulsed(hwc uint32, f PulsedFunc) {
+	rp.bindings.Lock()
+	defer rp.bindings.Unlock()
 	rp.pulsedBindings[hwc] = f
 }
 
@@ -67,6 +71,8 @@ type AbsoluteFunc func(uint32, int)
 // fader.  When the fader is moved then the provided
 // AbsoluteFunc is called.
 func (rp *RawPanel) BindAbsolute(hwc uint32, f AbsoluteFunc) {
+	rp.bindings.Lock()
+	defer rp.bindings.Unlock()
 	rp.absoluteBindings[hwc] = f
 }
 
@@ -79,6 +85,8 @@ type IntensityFunc func(uint32, int)
 // joystick. When the joystick axis is manipulated then the provided
 // IntensityFunc is called.
 func (rp *RawPanel) BindIntensity(hwc uint32, f IntensityFunc) {
+	rp.bindings.Lock()
+	defer rp.bindings.Unlock()
 	rp.intensityBindings[hwc] = f
 }
 
@@ -90,5 +98,7 @@ type TriggerFunc func(uint32, *rwp.HWCEvent)
 // Function BindTrigger sets a general callback for actions on a specific
 // hardware component.
 func (rp *RawPanel) BindTrigger(hwc uint32, f TriggerFunc) {
+	rp.bindings.Lock()
+	defer rp.bindings.Unlock()
 	rp.triggerBindings[hwc] = f
 }
diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index 6fbcbb0..95af37a 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -23,6 +23,7 @@ import (
 	"io"
 	"net"
 	"strings"
+	"sync"
 	"time"
 
 	"google.golang.org/protobuf/proto"
@@ -47,6 +48,7 @@ type RawPanel struct {
 	fromPanel chan []*rwp.OutboundMessage
 
 	// Trigger Bindings
+	bindings          sync.RWMutex // Mutex for accessing the maps below
 	binaryBindings    map[uint32]BinaryFunc
 	pulsedBindings    map[uint32]PulsedFunc
 	absoluteBindings  map[uint32]AbsoluteFunc
@@ -330,20 +332,29 @@ func (rp *RawPanel) procesMessagesFromPanel(messagesFromPanel []*rwp.OutboundMes
 		// Events:
 		if len(msg.Events) > 0 {
 			for _, event := range msg.Events {
-				if receiverFunc, exists := rp.triggerBindings[event.HWCID]; exists {
-					receiverFunc(event.HWCID, event)
+				// Look up first and call without holding the mutex: Handlers may bind other handlers
+				rp.bindings.RLock()
+				triggerFunc := rp.triggerBindings[event.HWCID]
+				binaryFunc := rp.binaryBindings[event.HWCID]
+				pulsedFunc := rp.pulsedBindings[event.HWCID]
+				absoluteFunc := rp.absoluteBindings[event.HWCID]
+				intensityFunc := rp.intensityBindings[event.HWCID]
+				rp.bindings.RUnlock()
+
+				if triggerFunc != nil {
+					triggerFunc(event.HWCID, event)
 				}
-				if receiverFunc, exists := rp.binaryBindings[event.HWCID]; exists && event.Binary != nil {
-					receiverFunc(event.HWCID, BinaryStatus(su.Qint(event.Binary.Pressed, 1, 0)), BinaryEdge(event.Binary.Edge))
+				if binaryFunc != nil && event.Binary != nil {
+					binaryFunc(event.HWCID, BinaryStatus(su.Qint(event.Binary.Pressed, 1, 0)), BinaryEdge(event.Binary.Edge))
 				}
-				if receiverFunc, exists := rp.pulsedBindings[event.HWCID]; exists && event.Pulsed != nil {
-					receiverFunc(event.HWCID, int(event.Pulsed.Value))
+				if pulsedFunc != nil && event.Pulsed != nil {
+					pulsedFunc(event.HWCID, int(event.Pulsed.Value))
 				}
-				if receiverFunc, exists := rp.absoluteBindings[event.HWCID]; exists && event.Absolute != nil {
-					receiverFunc(event.HWCID, int(event.Absolute.Value))
+				if absoluteFunc != nil && event.Absolute != nil {
+					absoluteFunc(event.HWCID, int(event.Absolute.Value))
 				}
-				if receiverFunc, exists := rp.intensityBindings[event.HWCID]; exists && event.Speed != nil {
-					receiverFunc(event.HWCID, int(event.Speed.Value))
+				if intensityFunc != nil && event.Speed != nil {
+					intensityFunc(event.HWCID, int(event.Speed.Value))
 				}
 			}
 		}
-- 
2.43.0


From 85bba8b9d159600a7dca52181f2ca63c8ff47388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:11 +0000
Subject: [PATCH 27/29] fix: dispatch events independent of sending, so that
 handlers can send any amount of feedback (C19)

---
 gorwp/rawpanel.go | 61 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 19 deletions(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index 95af37a..8c347aa 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -40,6 +40,7 @@ import (
 // Type RawPanel describes a SKAARHOJ Raw Panel device
 type RawPanel struct {
 	connection  net.Conn
+	ctx         context.Context
 	cancel      *context.CancelFunc
 	binaryPanel bool
 
@@ -79,6 +80,7 @@ func Connect(panelIPAndPort string, ctx context.Context, cancel context.CancelFu
 	// Set up new raw panel, handshake and initialize:
 	newRawPanel := &RawPanel{
 		connection: c,
+		ctx:        ctx,
 		cancel:     &cancel,
 		toPanel:    make(chan []*rwp.InboundMessage, 10),
 		fromPanel:  make(chan []*rwp.OutboundMessage, 10),
@@ -111,11 +113,19 @@ func (rp *RawPanel) Close() {
 	(*rp.cancel)()
 }
 
+// Queues messages for the panel. They are discarded when the connection has ended.
+func (rp *RawPanel) send(messages []*rwp.InboundMessage) {
+	select {
+	case rp.toPanel <- messages:
+	case <-rp.ctx.Done():
+	}
+}
+
 // Asking a panel for initial information:
 func (rp *RawPanel) init(ctx context.Context) error {
 
 	// Sending request for various standard information from panel, all things we consider mandatory for initialization:
-	rp.toPanel <- []*rwp.InboundMessage{{
+	rp.send([]*rwp.InboundMessage{{
 		Command: &rwp.Command{
 			SendPanelInfo:         true,
 			SendPanelTopology:     true,
@@ -124,7 +134,7 @@ func (rp *RawPanel) init(ctx context.Context) error {
 				Value: 3000,
 			},
 		},
-	}}
+	}})
 
 	// Check for initialization, if we get it, return in channel:
 	initialized := make(chan bool, 1)
@@ -151,7 +161,7 @@ func (rp *RawPanel) init(ctx context.Context) error {
 
 func (rp *RawPanel) listen(ctx context.Context) {
 
-	// Listening for messages to/from panel
+	// Sending messages to the panel. Independent of the dispatching below, because handlers wait for their feedback to be taken over.
 	go func() {
 		ticker := time.NewTicker(1000 * time.Millisecond)
 		for {
@@ -178,9 +188,22 @@ func (rp *RawPanel) listen(ctx context.Context) {
 					}
 				}
 			case <-ticker.C: // Sending a ping periodically to the panel to make sure TCP will close connection if it doesn't get through. Strictly, the panel should answer back with ACK, but we don't check for that (seems this is enough)
-				rp.toPanel <- []*rwp.InboundMessage{{
+				select {
+				case rp.toPanel <- []*rwp.InboundMessage{{
 					FlowMessage: rwp.InboundMessage_PING,
-				}}
+				}}:
+				default: // There is enough to send already
+				}
+			}
+		}
+	}()
+
+	// Dispatching messages from the panel
+	go func() {
+		for {
+			select {
+			case <-ctx.Done():
+				return
 			case messagesFromPanel := <-rp.fromPanel:
 				rp.procesMessagesFromPanel(messagesFromPanel)
 			}
@@ -277,9 +300,9 @@ func (rp *RawPanel) procesMessagesFromPanel(messagesFromPanel []*rwp.OutboundMes
 
 		// Respond to ping:
 		if msg.FlowMessage == rwp.OutboundMessage_PING {
-			rp.toPanel <- []*rwp.InboundMessage{{
+			rp.send([]*rwp.InboundMessage{{
 				FlowMessage: rwp.InboundMessage_ACK,
-			}}
+			}})
 		}
 
 		// Store panel info:
@@ -376,7 +399,7 @@ func (rp *RawPanel) IsInitialized() bool {
 
 // Sets the panel brightness (same for OLED and LEDs in this case)
 func (rp *RawPanel) SetBrightness(brightness int) {
-	rp.toPanel <- []*rwp.InboundMessage{
+	rp.send([]*rwp.InboundMessage{
 		{
 			Command: &rwp.Command{
 				PanelBrightness: &rwp.Brightness{
@@ -385,13 +408,13 @@ func (rp *RawPanel) SetBrightness(brightness int) {
 				},
 			},
 		},
-	}
+	})
 }
 
 // Sets the color of a specific LED.
 func (rp *RawPanel) SetLEDColor(hwc uint32, c color.RGBA, intensity rwp.HWCMode_StateE) {
 	r, g, b, _ := c.RGBA()
-	rp.toPanel <- []*rwp.InboundMessage{
+	rp.send([]*rwp.InboundMessage{
 		{
 			States: []*rwp.HWCState{
 				{
@@ -409,12 +432,12 @@ func (rp *RawPanel) SetLEDColor(hwc uint32, c color.RGBA, intensity rwp.HWCMode_
 				},
 			},
 		},
-	}
+	})
 }
 
 // Sets the color of a specific LED by index
 func (rp *RawPanel) SetLEDColorByIndex(hwc uint32, colorIndex rwp.ColorIndex_Colors, intensity rwp.HWCMode_StateE) {
-	rp.toPanel <- []*rwp.InboundMessage{
+	rp.send([]*rwp.InboundMessage{
 		{
 			States: []*rwp.HWCState{
 				{
@@ -430,7 +453,7 @@ func (rp *RawPanel) SetLEDColorByIndex(hwc uint32, colorIndex rwp.ColorIndex_Col
 				},
 			},
 		},
-	}
+	})
 }
 
 // Sets the raw panel ASCII text of a display (text lines and header type)
@@ -448,7 +471,7 @@ func (rp *RawPanel) SetRWPText(hwc uint32, title string, text1 string, text2 str
 
 // Sets the raw panel ASCII text of a display by forwarding a full text struct
 func (rp *RawPanel) SetRWPTextByStruct(hwc uint32, txtStruct *rwp.HWCText) {
-	rp.toPanel <- []*rwp.InboundMessage{
+	rp.send([]*rwp.InboundMessage{
 		{
 			States: []*rwp.HWCState{
 				{
@@ -457,7 +480,7 @@ func (rp *RawPanel) SetRWPTextByStruct(hwc uint32, txtStruct *rwp.HWCText) {
 				},
 			},
 		},
-	}
+	})
 }
 
 // Type DrawFitting represents how the image is scaled
@@ -544,7 +567,7 @@ func (rp *RawPanel) DrawImageOptions(hwc uint32, inImg image.Image, displayInfo
 	// Map the image onto the canvas
 	rawpanelproc.RenderImageOnCanvas(&img, newImage, imgBounds, "", "", "")
 
-	rp.toPanel <- []*rwp.InboundMessage{
+	rp.send([]*rwp.InboundMessage{
 		{
 			States: []*rwp.HWCState{
 				{
@@ -553,7 +576,7 @@ func (rp *RawPanel) DrawImageOptions(hwc uint32, inImg image.Image, displayInfo
 				},
 			},
 		},
-	}
+	})
 
 	return nil
 }
@@ -561,9 +584,9 @@ func (rp *RawPanel) DrawImageOptions(hwc uint32, inImg image.Image, displayInfo
 // Function SendRawState just forwards a state struct
 // to the panel
 func (rp *RawPanel) SendRawState(state *rwp.HWCState) {
-	rp.toPanel <- []*rwp.InboundMessage{
+	rp.send([]*rwp.InboundMessage{
 		{
 			States: []*rwp.HWCState{state},
 		},
-	}
+	})
 }
-- 
2.43.0


From 081f3d189e27d8fd1db98931568fb7ee997f26dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:11 +0000
Subject: [PATCH 28/29] fix: dispatch what was received before the connection
 was lost (C19)

---
 gorwp/rawpanel.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index 8c347aa..a34bd77 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -199,22 +199,33 @@ func (rp *RawPanel) listen(ctx context.Context) {
 	}()
 
 	// Dispatching messages from the panel
+	dispatched := make(chan bool)
 	go func() {
-		for {
-			select {
-			case <-ctx.Done():
-				return
-			case messagesFromPanel := <-rp.fromPanel:
-				rp.procesMessagesFromPanel(messagesFromPanel)
-			}
+		defer close(dispatched)
+		for messagesFromPanel := range rp.fromPanel {
+			rp.procesMessagesFromPanel(messagesFromPanel)
 		}
 	}()
 
+	// Closing the connection when the context is done. Reading ends then.
+	go func() {
+		<-ctx.Done()
+		rp.connection.Close()
+	}()
+
 	// Read from panel. This will send into the rp.fromPanel channel. It returns when there is an error:
 	err := rp.readFromPanel()
 	log.Should(err)
 
 	rp.connection.Close()
+
+	// Everything that arrived before is dispatched, within reason
+	close(rp.fromPanel)
+	select {
+	case <-dispatched:
+	case <-ctx.Done():
+	case <-time.After(time.Second):
+	}
 	(*rp.cancel)()
 }
 
-- 
2.43.0


From 5e24372e26abfe66947880ded362a1018067d77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:11 +0000
Subject: [PATCH 29/29] fix: report an error if the connection is lost during
 initialization (C19)

---
 gorwp/rawpanel.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gorwp/rawpanel.go b/gorwp/rawpanel.go
index a34bd77..95800a2 100644
--- a/gorwp/rawpanel.go
+++ b/gorwp/rawpanel.go
@@ -150,8 +150,11 @@ func (rp *RawPanel) init(ctx context.Context) error {
 
 	// Wait for either signal that init was OK - or return after two seconds where it did not happen
 	select {
-	case <-ctx.Done():
-		return nil
+	case <-ctx.Done(): // Cancelled, or the connection was lost
+		if rp.IsInitialized() {
+			return nil
+		}
+		return fmt.Errorf("connection ended before the panel was initialized")
 	case <-initialized:
 		return nil
 	case <-time.After(2 * time.Second):
-- 
2.43.0

