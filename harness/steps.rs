// Step kinds by stored code (254 and 255, the tool's own Assert, are left out).
pub const STEPS: &[(u8, &str)] = &[
    (1, "PerformScript"), (3, "SaveACopyAsXml"), (4, "GoToNextField"), (5, "GoToPreviousField"), (6, "GoToLayout"), (7, "NewRecordRequest"),
    (8, "DuplicateRecordRequest"), (9, "DeleteRecordRequest"), (10, "DeleteAllRecords"), (11, "InsertFromIndex"), (12, "InsertFromLastVisited"),
    (13, "InsertCurrentDate"), (14, "InsertCurrentTime"), (16, "GoToRecordRequestPage"), (17, "GoToField"), (18, "CheckSelection"),
    (19, "CheckRecord"), (20, "CheckFoundSet"), (21, "UnsortRecords"), (22, "EnterFindMode"), (23, "ShowAllRecords"), (24, "ModifyLastFind"),
    (25, "OmitRecord"), (26, "OmitMultipleRecords"), (27, "ShowOmmitedOnly"), (28, "PerformFind"), (29, "ShowHideToolbars"), (30, "ViewAs"),
    (31, "AdjustWindow"), (32, "OpenHelp"), (33, "OpenFile"), (34, "CloseFile"), (35, "ImportRecords"), (36, "ExportRecords"), (37, "SaveACopyAs"),
    (38, "OpenManageDatabase"), (39, "SortRecords"), (40, "RelookupFieldContents"), (41, "EnterPreviewMode"), (42, "PrintSetup"), (43, "Print"),
    (44, "ExitApplication"), (45, "UndoRedo"), (46, "Cut"), (47, "Copy"), (48, "Paste"), (49, "Clear"), (50, "SelectAll"),
    (51, "RevertRecordRequest"), (55, "EnterBrowserMode"), (56, "InsertPicture"), (57, "SendEvent"), (60, "InsertCurrentUserName"),
    (61, "InsertText"), (62, "PauseResumeScript"), (63, "SendMail"), (64, "SendDdeExecute"), (65, "DialPhone"), (66, "Speak"),
    (67, "PerformApplescript"), (68, "If"), (69, "Else"), (70, "EndIf"), (71, "Loop"), (72, "ExitLoopIf"), (73, "EndLoop"), (74, "GoToRelatedRecord"),
    (75, "CommitRecordsRequests"), (76, "SetField"), (77, "InsertCalculatedResult"), (79, "FreezeWindow"), (80, "RefreshWindow"),
    (81, "ScrollWindow"), (82, "NewFile"), (83, "ChangePassword"), (84, "SetMultiUser"), (85, "AllowUserAbort"), (86, "SetErrorCapture"),
    (87, "ShowCustomDialog"), (88, "OpenScriptWorkspace"), (89, "BlankLineComment"), (90, "HaltScript"), (91, "ReplaceFieldContents"),
    (92, "ShowHideTextRuler"), (93, "Beep"), (94, "SetUseSystemFormats"), (95, "RecoverFile"), (96, "SaveACopyAsAddOnPackage"), (97, "SetZoomLevel"),
    (98, "CopyAllRecordsRequests"), (99, "GoToPortalRow"), (101, "CopyRecordRequest"), (102, "FluchCacheToDisk"), (103, "ExitScript"),
    (104, "DeletePortalRow"), (105, "OpenPreferences"), (106, "CorrectWord"), (107, "SpellingOptions"), (108, "SelectDictionaries"),
    (109, "EditUserDictionary"), (111, "OpenUrl"), (112, "OpenManageValueLists"), (113, "OpenSharing"), (114, "OpenFileOptions"),
    (115, "AllowFormattingBar"), (116, "SetNextSerialValue"), (117, "ExecuteSql"), (118, "OpenHosts"), (119, "MoveResizeWindow"),
    (120, "ArrangeAllWindows"), (121, "CloseWindow"), (122, "NewWindow"), (123, "SelectWindow"), (124, "SetWindowTitle"), (125, "ElseIf"),
    (126, "ConstrainFoundSet"), (127, "ExtendFoundSet"), (128, "PerformFindReplace"), (129, "OpenFindReplace"), (130, "SetSelection"),
    (131, "InsertFile"), (132, "ExportFieldContents"), (133, "OpenRecordRequest"), (134, "AddAccount"), (135, "DeleteAccount"),
    (136, "ResetAccountPassword"), (137, "EnableAccount"), (138, "Relogin"), (139, "ConvertFile"), (140, "OpenManageDataSources"),
    (141, "SetVariable"), (142, "InstallMenuSet"), (143, "SaveRecordsAsExcel"), (144, "SaveRecordsAsPdf"), (145, "GoToObject"), (146, "SetWebViewer"),
    (147, "SetFieldByName"), (148, "InstallOntimerScript"), (149, "OpenEditSavedFinds"), (150, "PerformQuickFind"), (151, "OpenManageLayouts"),
    (152, "SaveRecordsAsSnapshotLink"), (154, "SortRecordsByField"), (155, "FindMatchingRecords"), (156, "ManageContainers"),
    (157, "InstallPluginFile"), (158, "InsertPdf"), (159, "InsertAudioVideo"), (160, "InsertFromUrl"), (161, "InsertFromDevice"),
    (164, "PerformScriptOnServer"), (165, "OpenManageThemes"), (166, "ShowHideMenubar"), (167, "RefreshObject"), (168, "SetLayoutObjectAnimation"),
    (169, "ClosePopover"), (172, "OpenUploadToHost"), (174, "EnableTouchKeyboard"), (175, "PerformJavascriptInWebViewer"), (176, "CommentedOut"),
    (177, "AvplayerPlay"), (178, "AvplayerSetPlaybackState"), (179, "AvplayerSetOptions"), (180, "RefreshPortal"), (181, "GetFolderPath"),
    (182, "TruncateTable"), (183, "OpenFavorites"), (185, "ConfigureRegionMonitorScript"), (187, "ConfigureLocalNotification"),
    (188, "GetFileExists"), (189, "GetFileSize"), (190, "CreateDataFile"), (191, "OpenDataFile"), (192, "WriteToDataFile"), (193, "ReadFromDataFile"),
    (194, "GetDataFilePosition"), (195, "SetDataFilePosition"), (196, "CloseDataFile"), (197, "DeleteFile"), (199, "RenameFile"),
    (200, "SetErrorLogging"), (201, "ConfigureNfcReading"), (202, "ConfigureMachineLearningModel"), (203, "ExecuteFilemakerDataApi"),
    (205, "OpenTransaction"), (206, "CommitTransaction"), (207, "RevertTransaction"), (208, "SetSessionIdentifier"), (209, "SetDictionary"),
    (210, "PerformScriptOnServerWithCallback"), (211, "TriggerClarisConnectFlow"),
];
