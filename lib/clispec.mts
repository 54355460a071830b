// The command each tool of the cloud, Kubernetes and GitHub families stands for: [needs approval, command, what each option adds].
// `{x}` is the value given for x; `[-a b] c` means the option puts c in the place of a b; `= c` gives the whole command.
export const CLI: Record<string, [boolean, string, Record<string, string>]> = {
	"cloud_aws_s3_ls": [false, "aws s3 ls", { "path": "{path}", "recursive": "--recursive", "humanReadable": "--human-readable", "summarize": "--summarize", "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "--output {output}" }],
	"cloud_aws_s3_cp": [true, "aws s3 cp {source} {destination}", { "recursive": "--recursive", "exclude": "--exclude {exclude.0} --exclude {exclude.1}", "include": "--include {include.0} --include {include.1}", "acl": "--acl {acl}", "storageClass": "--storage-class {storageClass}", "sseKmsKeyId": "--sse aws:kms --sse-kms-key-id {sseKmsKeyId}", "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "--output {output}" }],
	"cloud_aws_s3_rm": [true, "aws s3 rm s3://bkt/{path}", { "exclude": "--exclude {exclude.0} --exclude {exclude.1}", "include": "--include {include.0} --include {include.1}", "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "--output {output}" }],
	"cloud_aws_s3_sync": [true, "aws s3 sync {source} {destination}", { "dryRun": "--dryrun", "deleteExtraneous": "--delete", "exclude": "--exclude {exclude.0} --exclude {exclude.1}", "include": "--include {include.0} --include {include.1}", "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "--output {output}" }],
	"cloud_aws_ec2_list": [false, "aws ec2 describe-instances --output json", { "instanceIds": "--instance-ids {instanceIds.0} {instanceIds.1}", "filters": "--filters {filters.0} {filters.1}", "maxResults": "--max-results 23", "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "[-json] {output}" }],
	"cloud_aws_ec2_start": [true, "aws ec2 start-instances --instance-ids {instanceIds.0} {instanceIds.1} --output json", { "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "[-json] {output}" }],
	"cloud_aws_ec2_stop": [true, "aws ec2 stop-instances --instance-ids {instanceIds.0} {instanceIds.1} --output json", { "force": "--force", "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "[-json] {output}" }],
	"cloud_aws_ec2_terminate": [true, "aws ec2 terminate-instances --instance-ids {instanceIds.0} {instanceIds.1} --output json", { "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "[-json] {output}" }],
	"cloud_aws_sts_whoami": [false, "aws sts get-caller-identity --output json", { "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "[-json] {output}" }],
	"cloud_aws_lambda_invoke": [true, "aws lambda invoke --function-name {functionName} --payload fileb:///tmp/TMP.json --invocation-type RequestResponse --cli-binary-format raw-in-base64-out --output json /tmp/TMP.json", { "invocationType=Event": "[-RequestResponse] Event", "invocationType=DryRun": "[-RequestResponse] DryRun", "qualifier": "--qualifier {qualifier}", "logType=None": "--log-type None", "logType=Tail": "--log-type Tail", "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "[-json] {output}" }],
	"cloud_aws_lambda_list": [false, "aws lambda list-functions --output json", { "maxItems": "--max-items 23", "marker": "--starting-token {marker}", "functionVersion": "--function-version {functionVersion}", "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "[-json] {output}" }],
	"cloud_aws_lambda_update-code": [true, "aws lambda update-function-code --function-name {functionName} --image-uri {imageUri} --output json", { "zipPath": "[---image-uri {imageUri}] --zip-file fileb://{zipPath} --cli-binary-format raw-in-base64-out", "publish": "--publish", "dryRun": "--dry-run", "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "[-json] {output}" }],
	"cloud_aws_secretsmanager_get": [true, "aws secretsmanager get-secret-value --secret-id {secretId} --output json", { "versionId": "--version-id {versionId}", "versionStage": "--version-stage {versionStage}", "reveal": "", "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "[-json] {output}" }],
	"cloud_aws_secretsmanager_put": [true, "aws secretsmanager put-secret-value --secret-id {secretId} --secret-string {secretString} --output json", { "stages": "--version-stages {stages.0} {stages.1}", "clientRequestToken": "--client-request-token {clientRequestToken}", "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "[-json] {output}" }],
	"cloud_aws_ssm_get-parameter": [true, "aws ssm get-parameter --name {name} --output json", { "withDecryption": "--with-decryption", "reveal": "", "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "[-json] {output}" }],
	"cloud_aws_ssm_put-parameter": [true, "aws ssm put-parameter --name {name} --value {value} --type String --output json", { "type=StringList": "= aws ssm put-parameter --name {name} --value {value} --type StringList --output json", "type=SecureString": "= aws ssm put-parameter --name {name} --value {value} --type SecureString --output json", "overwrite": "--overwrite", "keyId": "--key-id {keyId}", "description": "--description {description}", "tier=Standard": "--tier Standard", "tier=Advanced": "--tier Advanced", "tier=Intelligent-Tiering": "--tier Intelligent-Tiering", "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "[-json] {output}" }],
	"cloud_aws_cloudformation_list": [false, "aws cloudformation list-stacks --output json", { "statusFilter": "--stack-status-filter {statusFilter.0} {statusFilter.1}", "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "[-json] {output}" }],
	"cloud_aws_cloudformation_deploy": [true, "aws cloudformation deploy --stack-name {stackName} --template-file {templatePath}", { "parameters": "--parameter-overrides {parameters.0} {parameters.1}", "capabilities": "--capabilities {capabilities.0} {capabilities.1}", "noExecuteChangeset": "--no-execute-changeset", "tags": "--tags {tags.0} {tags.1}", "roleArn": "--role-arn {roleArn}", "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "--output {output}" }],
	"cloud_aws_cloudformation_delete": [true, "aws cloudformation delete-stack --stack-name {stackName} --output json", { "retainResources": "--retain-resources {retainResources.0} {retainResources.1}", "roleArn": "--role-arn {roleArn}", "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "[-json] {output}" }],
	"cloud_aws_ecr_login": [true, "aws ecr get-login-password", { "registryId": "--registry-ids {registryId}", "reveal": "", "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "--output {output}" }],
	"cloud_aws_eks_list": [false, "aws eks list-clusters --output json", { "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "[-json] {output}" }],
	"cloud_aws_eks_update-kubeconfig": [true, "aws eks update-kubeconfig --name {clusterName}", { "alias": "--alias {alias}", "kubeconfig": "--kubeconfig {kubeconfig}", "roleArn": "--role-arn {roleArn}", "dryRun": "--dry-run", "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "--output {output}" }],
	"cloud_aws_rds_describe": [false, "aws rds describe-db-instances --output json", { "dbInstanceId": "--db-instance-identifier {dbInstanceId}", "maxRecords": "--max-records 23", "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "[-json] {output}" }],
	"cloud_aws_rds_start": [true, "aws rds start-db-instance --db-instance-identifier {dbInstanceId} --output json", { "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "[-json] {output}" }],
	"cloud_aws_rds_stop": [true, "aws rds stop-db-instance --db-instance-identifier {dbInstanceId} --output json", { "dbSnapshotIdentifier": "--db-snapshot-identifier {dbSnapshotIdentifier}", "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "[-json] {output}" }],
	"cloud_aws_logs_tail": [false, "aws logs tail {logGroup}", { "follow": "--follow", "since": "--since {since}", "filterPattern": "--filter-pattern {filterPattern}", "logStreamNames": "--log-stream-names {logStreamNames.0} {logStreamNames.1}", "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "--output {output}" }],
	"cloud_aws_logs_filter": [false, "aws logs filter-log-events --log-group-name {logGroup} --output json", { "filterPattern": "--filter-pattern {filterPattern}", "startTime": "--start-time 23", "endTime": "--end-time 23", "logStreamNames": "--log-stream-names {logStreamNames.0} {logStreamNames.1}", "logStreamNamePrefix": "--log-stream-name-prefix {logStreamNamePrefix}", "limit": "--limit 23", "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "[-json] {output}" }],
	"cloud_aws_iam_list-attached-policies": [false, "aws sts get-caller-identity --output json && aws iam list-attached-user-policies --user-name {name} --output json", { "target=user": "= aws iam list-attached-user-policies --user-name {name} --output json", "target=role": "= aws iam list-attached-role-policies --role-name {name} --output json", "target=group": "= aws iam list-attached-group-policies --group-name {name} --output json", "profile": "--profile {profile}", "region": "--region {region}", "endpointUrl": "--endpoint-url {endpointUrl}", "output": "[-json] {output}" }],
	"cloud_gcp_storage_ls": [false, "gcloud storage ls", { "path": "{path}", "recursive": "--recursive", "long": "--long", "project": "--project {project}", "account": "--account {account}" }],
	"cloud_gcp_storage_cp": [true, "gcloud storage cp {source} {destination}", { "recursive": "--recursive", "preserveAcl": "--preserve-acl", "cacheControl": "--cache-control {cacheControl}", "project": "--project {project}", "account": "--account {account}" }],
	"cloud_gcp_storage_rm": [true, "gcloud storage rm gs://bkt/{path}", { "project": "--project {project}", "account": "--account {account}" }],
	"cloud_gcp_compute_list": [false, "gcloud compute instances list --format=json", { "filter": "--filter {filter}", "zones": "--zones {zones.0},{zones.1}", "limit": "--limit 23", "project": "--project {project}", "account": "--account {account}" }],
	"cloud_gcp_compute_start": [true, "gcloud compute instances start {names.0} {names.1} --zone {zone} --format=json", { "project": "--project {project}", "account": "--account {account}" }],
	"cloud_gcp_compute_stop": [true, "gcloud compute instances stop {names.0} {names.1} --zone {zone} --format=json", { "discardLocalSsd": "--discard-local-ssd=true", "project": "--project {project}", "account": "--account {account}" }],
	"cloud_gcp_compute_delete": [true, "gcloud compute instances delete {names.0} {names.1} --zone {zone} --quiet --format=json", { "deleteDisks=all": "--delete-disks all", "deleteDisks=boot": "--delete-disks boot", "deleteDisks=data": "--delete-disks data", "deleteDisks=none": "--delete-disks none", "project": "--project {project}", "account": "--account {account}" }],
	"cloud_gcp_iam_whoami": [false, "gcloud auth list --format=json && gcloud config list --format=json", { "project": "--project {project}", "account": "--account {account}" }],
	"cloud_gcp_functions_list": [false, "gcloud functions list --format=json", { "gen2": "--gen2", "filter": "--filter {filter}", "limit": "--limit 23", "project": "--project {project}", "account": "--account {account}", "region": "--regions {region}" }],
	"cloud_gcp_functions_call": [true, "gcloud functions call {name} --data-from-file /tmp/TMP.json --format=json", { "gen2": "--gen2", "project": "--project {project}", "account": "--account {account}", "region": "--region {region}" }],
	"cloud_gcp_run_list": [false, "gcloud run services list --format=json --platform managed", { "platform=gke": "[-managed] gke", "platform=kubernetes": "[-managed] kubernetes", "project": "--project {project}", "account": "--account {account}", "region": "--region {region}" }],
	"cloud_gcp_run_deploy": [true, "gcloud run deploy {name} --format=json --quiet --platform managed --image {image}", { "sourceDir": "--source {sourceDir}", "envVars": "--set-env-vars {envVars.0},{envVars.1}", "envFromFile": "--env-vars-file {envFromFile}", "serviceAccount": "--service-account {serviceAccount}", "allowUnauthenticated": "--allow-unauthenticated", "cpu": "--cpu {cpu}", "memory": "--memory {memory}", "concurrency": "--concurrency 23", "timeoutSeconds": "--timeout 23s", "platform=gke": "[-managed] gke", "platform=kubernetes": "[-managed] kubernetes", "project": "--project {project}", "account": "--account {account}", "region": "--region {region}" }],
	"cloud_gcp_run_delete": [true, "gcloud run services delete {name} --quiet --format=json --platform managed", { "platform=gke": "[-managed] gke", "platform=kubernetes": "[-managed] kubernetes", "project": "--project {project}", "account": "--account {account}", "region": "--region {region}" }],
	"cloud_gcp_secrets_access": [true, "gcloud secrets versions access latest --secret {secret}", { "version": "[-latest] {version}", "reveal": "", "project": "--project {project}", "account": "--account {account}" }],
	"cloud_gcp_secrets_add": [true, "gcloud secrets versions add {secret} --data-file /tmp/TMP.bin --format=json", { "project": "--project {project}", "account": "--account {account}" }],
	"cloud_gcp_logging_read": [false, "gcloud logging read --format=json", { "filter": "{filter}", "limit": "--limit 23", "freshness": "--freshness {freshness}", "orderBy=ASC": "--order ASC", "orderBy=DESC": "--order DESC", "project": "--project {project}", "account": "--account {account}" }],
	"cloud_gcp_sql_describe": [false, "gcloud sql instances list --format=json", { "instance": "[-list] describe {instance}", "project": "--project {project}", "account": "--account {account}" }],
	"cloud_gcp_sql_start": [true, "gcloud sql instances patch {instance} --activation-policy ALWAYS --format=json --quiet", { "project": "--project {project}", "account": "--account {account}" }],
	"cloud_gcp_sql_stop": [true, "gcloud sql instances patch {instance} --activation-policy NEVER --format=json --quiet", { "project": "--project {project}", "account": "--account {account}" }],
	"cloud_gcp_container_get-credentials": [true, "gcloud container clusters get-credentials {cluster}", { "internalIp": "--internal-ip", "dnsEndpoint": "--dns-endpoint", "project": "--project {project}", "account": "--account {account}", "region": "--region {region}", "zone": "--zone {zone}" }],
	"cloud_az_account_show": [false, "az account show --output json", { "subscription": "--subscription {subscription}" }],
	"cloud_az_storage_blob_ls": [false, "az storage blob list --container-name {container} --account-name {accountName} --output json", { "prefix": "--prefix {prefix}", "limit": "--num-results 23", "accountKey": "--account-key {accountKey}", "sasToken": "--sas-token {sasToken}", "connectionString": "--connection-string {connectionString}", "authMode=key": "--auth-mode key", "authMode=login": "--auth-mode login", "subscription": "--subscription {subscription}" }],
	"cloud_az_storage_blob_cp": [true, "az storage blob upload --container-name {container} --name {blobName} --file {localPath} --account-name {accountName} --output json", { "direction=download": "= az storage blob download --container-name {container} --name {blobName} --file {localPath} --account-name {accountName} --output json", "overwrite": "--overwrite", "accountKey": "--account-key {accountKey}", "sasToken": "--sas-token {sasToken}", "connectionString": "--connection-string {connectionString}", "authMode=key": "--auth-mode key", "authMode=login": "--auth-mode login", "subscription": "--subscription {subscription}" }],
	"cloud_az_storage_blob_rm": [true, "az storage blob delete --container-name {container} --name {blobName} --account-name {accountName} --output json", { "deleteSnapshots=include": "--delete-snapshots include", "deleteSnapshots=only": "--delete-snapshots only", "accountKey": "--account-key {accountKey}", "sasToken": "--sas-token {sasToken}", "connectionString": "--connection-string {connectionString}", "authMode=key": "--auth-mode key", "authMode=login": "--auth-mode login", "subscription": "--subscription {subscription}" }],
	"cloud_az_vm_list": [false, "az vm list --output json", { "showDetails": "--show-details", "subscription": "--subscription {subscription}", "resourceGroup": "--resource-group {resourceGroup}" }],
	"cloud_az_vm_start": [true, "az vm start --name {names.0} {names.1} --resource-group {resourceGroup} --output json", { "subscription": "--subscription {subscription}" }],
	"cloud_az_vm_stop": [true, "az vm deallocate --name {names.0} {names.1} --resource-group {resourceGroup} --output json", { "graceful": "[-deallocate] stop", "subscription": "--subscription {subscription}" }],
	"cloud_az_vm_delete": [true, "az vm delete --name {names.0} {names.1} --resource-group {resourceGroup} --yes --output json", { "forceDeletion": "--force-deletion true", "subscription": "--subscription {subscription}" }],
	"cloud_az_keyvault_secret_show": [true, "az keyvault secret show --vault-name {vault} --name {name} --output json", { "version": "--version {version}", "reveal": "", "subscription": "--subscription {subscription}" }],
	"cloud_az_keyvault_secret_set": [true, "az keyvault secret set --vault-name {vault} --name {name} --value {value} --output json", { "tags": "--tags {tags.0} {tags.1}", "contentType": "--content-type {contentType}", "subscription": "--subscription {subscription}" }],
	"cloud_az_aks_list": [false, "az aks list --output json", { "subscription": "--subscription {subscription}", "resourceGroup": "--resource-group {resourceGroup}" }],
	"cloud_az_aks_get-credentials": [true, "az aks get-credentials --name {cluster} --resource-group {resourceGroup} --output json", { "admin": "--admin", "overwrite": "--overwrite-existing", "kubeconfig": "--file {kubeconfig}", "subscription": "--subscription {subscription}" }],
	"cloud_az_functionapp_list": [false, "az functionapp list --output json", { "subscription": "--subscription {subscription}", "resourceGroup": "--resource-group {resourceGroup}" }],
	"cloud_az_functionapp_deploy": [true, "az functionapp deployment source config-zip --name {name} --resource-group {resourceGroup} --src {zipPath} --output json", { "buildRemote": "--build-remote true", "subscription": "--subscription {subscription}" }],
	"cloud_az_monitor_log_query": [false, "az monitor log-analytics query --workspace {workspace} --analytics-query {query} --output json", { "timespan": "--timespan {timespan}", "subscription": "--subscription {subscription}" }],
	"cloud_az_sql_server_list": [false, "az sql server list --output json", { "subscription": "--subscription {subscription}", "resourceGroup": "--resource-group {resourceGroup}" }],
	"cloud_az_sql_server_start": [true, "az sql server resume --name {server} --resource-group {resourceGroup} --output json", { "managedInstance": "[-server resume --name] mi start-stop-schedule create --mi", "subscription": "--subscription {subscription}" }],
	"cloud_az_sql_server_stop": [true, "az sql server pause --name {server} --resource-group {resourceGroup} --output json", { "managedInstance": "[-server pause --name] mi stop --mi", "subscription": "--subscription {subscription}" }],
	"k8s_get": [false, "kubectl get {resource} -o yaml", { "name": "{name}", "labelSelector": "-l {labelSelector}", "fieldSelector": "--field-selector {fieldSelector}", "allNamespaces": "-A", "describe": "[-get {resource} -o yaml] describe {resource}", "output": "[-yaml] {output}", "context": "--context {context}", "namespace": "-n {namespace}", "kubeconfig": "--kubeconfig {kubeconfig}" }],
	"k8s_apply": [true, "kubectl apply -f {manifestPath}", { "serverSide": "--server-side", "force": "--force", "context": "--context {context}", "namespace": "-n {namespace}", "kubeconfig": "--kubeconfig {kubeconfig}" }],
	"k8s_delete": [true, "kubectl delete {resource} {name}", { "labelSelector": "-l {labelSelector}", "force": "--force --grace-period=0", "context": "--context {context}", "namespace": "-n {namespace}", "kubeconfig": "--kubeconfig {kubeconfig}" }],
	"k8s_logs": [false, "kubectl logs {pod}", { "container": "-c {container}", "follow": "-f", "tail": "--tail=23", "sinceSeconds": "--since=23s", "previous": "--previous", "context": "--context {context}", "namespace": "-n {namespace}", "kubeconfig": "--kubeconfig {kubeconfig}" }],
	"k8s_exec": [true, "kubectl exec {pod} -- {command.0} {command.1}", { "container": "-c {container}", "stdin": "-i", "context": "--context {context}", "namespace": "-n {namespace}", "kubeconfig": "--kubeconfig {kubeconfig}" }],
	"k8s:port-forward": [true, "kubectl port-forward {resource} {mappings.0} {mappings.1}", { "address": "--address {address}", "context": "--context {context}", "namespace": "-n {namespace}", "kubeconfig": "--kubeconfig {kubeconfig}" }],
	"gh_issue_list": [false, "gh issue list --json number,title,state,author,assignees,labels,url,createdAt,updatedAt -L 30", { "repo": "-R {repo}", "state=open": "-s open", "state=closed": "-s closed", "state=all": "-s all", "limit": "[-30] 23", "labels": "-l {labels.0},{labels.1}", "assignee": "-a {assignee}", "author": "-A {author}", "search": "-S {search}" }],
	"gh_issue_view": [false, "gh issue view 23 --json number,title,state,author,assignees,labels,url,createdAt,updatedAt,body,comments", { "repo": "-R {repo}" }],
	"gh_issue_create": [true, "gh issue create -t {title} -b ", { "repo": "-R {repo}", "body": "[-] {body}", "labels": "-l {labels.0},{labels.1}", "assignees": "-a {assignees.0},{assignees.1}", "milestone": "-m {milestone}", "project": "-p {project}" }],
	"gh_issue_comment": [true, "gh issue comment 23 -b {body}", { "repo": "-R {repo}" }],
	"gh_issue_edit": [true, "gh issue edit 23", { "repo": "-R {repo}", "title": "-t {title}", "body": "-b {body}", "addLabels": "--add-label {addLabels.0},{addLabels.1}", "removeLabels": "--remove-label {removeLabels.0},{removeLabels.1}", "addAssignees": "--add-assignee {addAssignees.0},{addAssignees.1}", "removeAssignees": "--remove-assignee {removeAssignees.0},{removeAssignees.1}", "milestone": "-m {milestone}" }],
	"gh_issue_close": [true, "gh issue close 23", { "repo": "-R {repo}", "reason=completed": "-r completed", "reason=not planned": "-r not␣planned", "comment": "-c {comment}" }],
	"gh_issue_reopen": [true, "gh issue reopen 23", { "repo": "-R {repo}", "comment": "-c {comment}" }],
	"gh_issue_link": [true, "gh issue comment 23 -b relates-to␣{target}", { "repo": "-R {repo}", "relation=closes": "[-relates-to␣{target}] closes␣{target}", "relation=fixes": "[-relates-to␣{target}] fixes␣{target}", "relation=resolves": "[-relates-to␣{target}] resolves␣{target}", "relation=blocks": "[-relates-to␣{target}] blocks␣{target}", "relation=blocked-by": "[-relates-to␣{target}] blocked-by␣{target}" }],
	"gh_pr_list": [false, "gh pr list --json number,title,state,isDraft,author,assignees,reviewRequests,labels,baseRefName,headRefName,url,createdAt,updatedAt,additions,deletions,changedFiles -L 30", { "repo": "-R {repo}", "state=open": "-s open", "state=closed": "-s closed", "state=merged": "-s merged", "state=all": "-s all", "limit": "[-30] 23", "labels": "-l {labels.0},{labels.1}", "author": "-A {author}", "assignee": "-a {assignee}", "base": "-B {base}", "head": "-H {head}", "draft": "-d", "search": "-S {search}" }],
	"gh_pr_view": [false, "gh pr view 23 --json number,title,state,isDraft,author,assignees,reviewRequests,labels,baseRefName,headRefName,url,createdAt,updatedAt,additions,deletions,changedFiles,body,mergeable,mergeStateStatus", { "repo": "-R {repo}" }],
	"gh_pr_diff": [false, "gh pr diff 23", { "repo": "-R {repo}" }],
	"gh_pr_checks": [false, "gh pr view 23 --json statusCheckRollup,number", { "repo": "-R {repo}" }],
	"gh_pr_files": [false, "gh pr view 23 --json files", { "repo": "-R {repo}" }],
	"gh_pr_create": [true, "gh pr create -t {title}", { "repo": "-R {repo}", "body": "-b {body}", "base": "-B {base}", "head": "-H {head}", "draft": "-d", "labels": "-l {labels.0},{labels.1}", "assignees": "-a {assignees.0},{assignees.1}", "reviewers": "-r {reviewers.0},{reviewers.1}", "fill": "-f" }],
	"gh_pr_edit": [true, "gh pr edit 23", { "repo": "-R {repo}", "title": "-t {title}", "body": "-b {body}", "base": "-B {base}", "addLabels": "--add-label {addLabels.0},{addLabels.1}", "removeLabels": "--remove-label {removeLabels.0},{removeLabels.1}", "addReviewers": "--add-reviewer {addReviewers.0},{addReviewers.1}", "removeReviewers": "--remove-reviewer {removeReviewers.0},{removeReviewers.1}", "addAssignees": "--add-assignee {addAssignees.0},{addAssignees.1}", "removeAssignees": "--remove-assignee {removeAssignees.0},{removeAssignees.1}" }],
	"gh_pr_comment": [true, "gh pr comment 23 -b {body}", { "repo": "-R {repo}" }],
	"gh_pr_review": [true, "gh pr review 23 -a", { "repo": "-R {repo}", "event=request-changes": "= gh pr review 23 -r", "event=comment": "= gh pr review 23 -c", "body": "-b {body}" }],
	"gh_pr_merge": [true, "gh pr merge 23 -s", { "repo": "-R {repo}", "method=rebase": "= gh pr merge 23 -r", "method=merge": "= gh pr merge 23 -m", "deleteBranch": "-d", "autoMerge": "--auto", "body": "-b {body}", "title": "-t {title}", "admin": "--admin" }],
	"gh_pr_close": [true, "gh pr close 23", { "repo": "-R {repo}", "comment": "-c {comment}", "deleteBranch": "-d" }],
	"gh_pr_ready": [true, "gh pr ready 23", { "repo": "-R {repo}" }],
	"gh_project_list": [false, "gh project list --format json -L 30", { "owner": "--owner {owner}", "limit": "[-30] 23", "closed": "--closed" }],
	"gh_project_view": [false, "gh project view 23 --format json", { "owner": "--owner {owner}" }],
	"gh:project:item-list": [false, "gh project item-list 23 --format json -L 50", { "owner": "--owner {owner}", "limit": "[-50] 23" }],
	"gh:project:item-add": [true, "gh project item-add 23 --url {url}", { "owner": "--owner {owner}" }],
	"gh:project:item-update": [true, "gh project item-edit --project-id {projectId} --id {itemId} --field-id {fieldId} --text {value}", { "owner": "--owner {owner}", "singleSelectOptionId": "[---text {value}] --single-select-option-id {singleSelectOptionId}" }],
	"gh:project:item-archive": [true, "gh project item-archive --project-id {projectId} --id {itemId}", { "owner": "--owner {owner}", "undo": "--undo" }],
	"gh:project:item-delete": [true, "gh project item-delete --project-id {projectId} --id {itemId}", { "owner": "--owner {owner}" }],
	"gh:project:field-list": [false, "gh project field-list 23 --format json", { "owner": "--owner {owner}" }],
	"gh_run_list": [false, "gh run list --json databaseId,number,name,workflowName,displayTitle,conclusion,status,event,headBranch,headSha,url,createdAt,updatedAt -L 30", { "repo": "-R {repo}", "limit": "[-30] 23", "workflow": "-w {workflow}", "branch": "-b {branch}", "user": "-u {user}", "event": "-e {event}", "status": "-s {status}" }],
	"gh_run_view": [false, "gh run view 23 --json jobs,conclusion,status,workflowName,displayTitle,headBranch,url && gh run view 23 --log-failed", { "repo": "-R {repo}" }],
	"gh_run_rerun": [true, "gh run rerun 23 --failed", { "repo": "-R {repo}", "allJobs": "[---failed] ", "debug": "--debug" }],
	"gh_run_cancel": [true, "gh run cancel 23", { "repo": "-R {repo}" }],
	"gh_workflow_list": [false, "gh workflow list", { "repo": "-R {repo}", "all": "-a" }],
	"gh_workflow_run": [true, "gh workflow run {workflow}", { "repo": "-R {repo}", "ref": "-r {ref}", "inputs": "-f {inputs.k}={inputs.v}" }],
	"gh_release_list": [false, "gh release list -L 30", { "repo": "-R {repo}", "limit": "[-30] 23", "excludeDrafts": "--exclude-drafts", "excludePrereleases": "--exclude-pre-releases" }],
	"gh_release_view": [false, "gh release view --json tagName,name,isDraft,isPrerelease,author,publishedAt,createdAt,url,body", { "repo": "-R {repo}", "tag": "{tag}" }],
	"gh_release_create": [true, "gh release create {tag} -n ", { "repo": "-R {repo}", "title": "-t {title}", "notes": "[-] {notes}", "target": "--target {target}", "draft": "-d", "prerelease": "-p", "generateNotes": "[--n ] --generate-notes", "assets": "{assets.0} {assets.1}" }],
	"gh_release_edit": [true, "gh release edit {tag}", { "repo": "-R {repo}", "newTag": "--tag {newTag}", "title": "-t {title}", "notes": "-n {notes}", "draft": "--draft=true", "prerelease": "--prerelease=true" }],
	"gh_release_publish": [true, "gh release edit {tag} --draft=false", { "repo": "-R {repo}" }],
	"gh_release_delete": [true, "gh release delete {tag} -y", { "repo": "-R {repo}", "cleanupTag": "--cleanup-tag" }],
	"gh_repo_view": [false, "gh repo view --json nameWithOwner,description,visibility,isPrivate,isFork,isArchived,pushedAt,stargazerCount,forkCount,defaultBranchRef,primaryLanguage,url", { "repo": "{repo}" }],
	"gh_repo_list": [false, "gh repo list -L 30 --json nameWithOwner,description,visibility,isPrivate,isFork,isArchived,pushedAt,stargazerCount,forkCount,defaultBranchRef,primaryLanguage,url", { "owner": "{owner}", "limit": "[-30] 23", "visibility=public": "--visibility public", "visibility=private": "--visibility private", "visibility=internal": "--visibility internal", "archived": "--archived", "source": "--source", "fork": "--fork" }],
	"gh_repo_create": [true, "gh repo create {name} --public", { "visibility=private": "= gh repo create {name} --private", "visibility=internal": "= gh repo create {name} --internal", "description": "-d {description}", "homepage": "-h {homepage}", "license": "-l {license}", "gitignore": "-g {gitignore}", "team": "-t {team}", "clone": "--clone" }],
	"gh_repo_fork": [true, "gh repo fork {repo} --remote=false", { "org": "--org {org}", "clone": "--clone", "defaultBranchOnly": "--default-branch-only" }],
	"gh_repo_delete": [true, "gh repo delete {repo} --yes", {  }],
	"gh_repo_clone": [true, "gh repo clone {repo}", { "dir": "{dir}", "extraArgs": "-- {extraArgs.0} {extraArgs.1}" }],
};
